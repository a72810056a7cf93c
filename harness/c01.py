"""C01: every word of the command line is accounted for exactly once and in order."""
from harness.ref import U, UNKNOWN, same_flag, same_opt_att, spellings, Util

LEVEL = 'model_checking'
EXPECT_TAGS = ['operands', 'items', 'group', 'attached', 'separate', 'long line']
ASSUMPTIONS = ['the command name is a plain word; words are handed to the parser properly quoted (splitting is C05)']
BOUNDS = {'quick': 'every annotated command and an unknown one; up to 2 words, each any documented spelling, any attached --option=q, or '
                   'any string over codes 1-126 of length <=4 (one word), <=3 and <=2 (two words); 3 words from a reduced vocabulary '
                   '(spellings of flags and options of every kind) and any string of length <=1, 2, 1; 5 words from the reduced vocabulary; a word of length up to '
                   '12 that starts with no dash, alone or between two from the reduced vocabulary; lines of 20 flags and options and up to 42 operands, some words of them arbitrary',
          'thorough': 'the same with strings of length <=5; <=4,<=3; and 3 and 4 words from the reduced vocabulary with length <=2,3,2 and <=1,1,2,1'}


def tasks(tier):
    out = []
    for c in sorted(U) + UNKNOWN:
        for raw in ([(), (4,), (3, 2), (1, 2, 1), (0, 0, 0, 0, 0)] if tier == 'quick' else [(), (5,), (4, 3), (2, 3, 2), (1, 1, 2, 1)]):
            out.append(dict(fn='accounted', params=dict(cmd=c, raw=list(raw)), cost=6 ** len(raw) * (1 + len(spellings(U.get(c, Util()))))))
        out.append(dict(fn='accounted', params=dict(cmd=c, raw=['word']), cost=5))
        out.append(dict(fn='accounted', params=dict(cmd=c, raw=[0, 'word', 0]), cost=50))
        out.append(dict(fn='many', params=dict(cmd=c, k=20 if tier == 'quick' else 60), cost=50))
    return out


def vocab(u, full):
    """All spellings (or some of every kind), options with attached arguments, words that are none of these."""
    v = spellings(u)
    att = [s for s in v if s in u.co_att and s[:2] == '--']
    if not full:
        f = [x for x in u.flags if len(x) > 1][:1] + [x for x in u.flags if len(x) == 1][:1] + u.flags[:1]
        o = [x[0] for x in u.opts if len(x[0]) > 1][:1] + [x[0] for x in u.opts if len(x[0]) == 1][:1]
        v = sorted(set(s for x in f + o for s in x))
        att = att[:1]
    return v + [s + '=q' for s in att] + ['--', '--nosuch']


def words(E, u, raw):
    out = []
    for i, n in enumerate(raw):
        if n == 'word':
            w = E.word('w%d' % i, [], range(4 if i else 6, 13))
            E.assume(E.neg(E.eq(w[:1], '-')))
        else:
            w = E.word('w%d' % i, vocab(u, len(raw) < 3), range(0, n + 1))
        out.append(w)
    return out


def many(E, p):
    """A long line: many flags and options, then many operands."""
    u = U.get(p['cmd'], Util())
    k, ws = p['k'], []
    if u.cf or u.co:
        mix = E.choose('mix', 3)
        for i in range(k if mix else 0):
            if u.cf and (not u.co or mix == 1 or i % 2):
                ws.append(E.pick('f%d' % i, sorted(u.cf)) if i == k - 1 else sorted(u.cf)[i % len(u.cf)])
            elif u.co:
                o = sorted(u.co)[i % len(u.co)]
                ws += [o, E.word('a%d' % i, ['a' * 200], (2,)) if i in (0, k - 2) else 'a%d' % i]
    ops = ['f' * 300] + ['g%d' % i for i in range(k)] + [E.word('x', vocab(u, False) + ['a b' * 100], (1,))] + ['-x'] * k
    E.reach('long line')
    account(E, p['cmd'], u, ws + ops[:(0, 1, len(ops))[E.choose('nops', 3)]])


def accounted(E, p):
    u = U.get(p['cmd'], Util())
    account(E, p['cmd'], u, words(E, u, p['raw']))


def account(E, cmd, u, ws):
    from pash_annotations.parser.parser import parse
    from pash_annotations.datatypes.BasicDatatypes import Flag, Option, Operand
    r = E.call(parse, E.command([cmd] + ws))
    E.check(r.ok, 'parse raised')
    if not r.ok:
        return
    inv = r.value
    E.observe('inv', inv)
    E.check(inv.cmd_name == cmd, 'command name')
    items, ops = inv.flag_option_list, inv.operand_list
    n, m = len(ws), len(ws) - len(ops)
    E.check(m >= 0, 'more operands than words')
    if m < 0:
        return
    if ops:
        E.reach('operands')
    if items:
        E.reach('items')
    for j in range(len(ops)):
        E.check(isinstance(ops[j], Operand) and E.eq(ops[j].name, ws[m + j]), 'operand differs from its word')
    pos = 0
    i = 0
    while i < m:
        w = ws[i]
        if pos >= len(items):
            E.fail('a word was dropped')
            return
        it = items[pos]
        if isinstance(it, Flag):
            if same_flag(u, it.flag_name, w):
                pos += 1
                i += 1
                continue
        elif isinstance(it, Option):
            if i + 1 < m and same_opt_att(u, it.option_name, w) and it.option_arg == ws[i + 1]:
                E.reach('separate')
                pos += 1
                i += 2
                continue
            head, eqs, tail = w.partition('=')
            if eqs == '=' and same_opt_att(u, it.option_name, head) and it.option_arg == tail:
                E.reach('attached')
                pos += 1
                i += 1
                continue
        else:
            E.fail('neither flag nor option')
            return
        # a group of one-letter flags, the last of which may be an option
        if len(w) < 2 or w[0] != '-':
            E.fail('a word is not accounted for')
            return
        used = 1
        k = 1
        while k < len(w):
            if pos >= len(items):
                E.fail('a letter of a group was dropped')
                return
            it = items[pos]
            pos += 1
            if isinstance(it, Flag):
                if not same_flag(u, it.flag_name, '-' + w[k]):
                    E.fail('a letter of a group became another flag')
                    return
                k += 1
            else:
                if not same_opt_att(u, it.option_name, '-' + w[k]):
                    E.fail('a letter of a group became another option')
                    return
                if k + 1 < len(w):
                    if not it.option_arg == w[k + 1:]:
                        E.fail('attached argument differs')
                        return
                    E.reach('attached')
                    k = len(w)
                else:
                    if not (i + 1 < m and it.option_arg == ws[i + 1]):
                        E.fail('argument of an option in a group differs')
                        return
                    used = 2
                    k += 1
        E.reach('group')
        i += used
    E.check(i == m, 'a word is counted twice')
    E.check(pos == len(items), 'a flag or option that no word spells')
