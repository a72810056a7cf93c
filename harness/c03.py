"""C03: the first operand ends flag and option parsing."""
from harness.ref import U, UNKNOWN, Util, ref_parse, spellings

LEVEL = 'model_checking'
EXPECT_TAGS = ['no operand', 'operand looks like a flag', 'empty word', 'dash', 'double dash', 'other command', 'long line']
ASSUMPTIONS = ['an option that lacks its argument at the end of the line counts as a word that is neither flag nor option',
               'deprecated single-dash multi-letter words other than groups (find style) do not occur']
BOUNDS = {'quick': 'every annotated command and an unknown one; lines of any one word (string of length <=4 over codes 1-126 or any '
                   'spelling), two words (length <=2, 2, any spelling; a spelling and length 5, 8 or 12), and a flag or option, an arbitrary word of length <=2, and two '
                   'arbitrary words of length <=1 or any spelling; up to three flags and options, an operand and six words of length 2 or any spelling; lines of 20 flags and options and up to 60 operands, some words of them arbitrary; names that only resemble an annotated one (paths, other case, longer)',
          'thorough': 'the same with lengths <=5; 3, 3; 3, 2, 2'}


def tasks(tier):
    out = []
    for c in sorted(U) + UNKNOWN:
        cost = 1 + len(spellings(U.get(c, Util())))
        for raw in ([(4,), (2, 2), (0, 12)] if tier == 'quick' else [(5,), (3, 3)]):
            out.append(dict(fn='boundary', params=dict(cmd=c, raw=list(raw)), cost=cost * len(raw)))
        out.append(dict(fn='after', params=dict(cmd=c, raw=[2, 1, 1] if tier == 'quick' else [3, 2, 2]), cost=cost * 3))
        out.append(dict(fn='long', params=dict(cmd=c, k=6 if tier == 'quick' else 9), cost=cost))
        out.append(dict(fn='other', params=dict(cmd=c), cost=cost * 3))
        out.append(dict(fn='many', params=dict(cmd=c, k=20 if tier == 'quick' else 60), cost=cost * 3))
    return out


def vocab(u):
    v = spellings(u)
    return v + [s + '=q' for s in v if s in u.co_att and s[:2] == '--'] + ['--', '-', '', '--nosuch', '---']


def compare(E, u, cmd, ws):
    from pash_annotations.parser.parser import parse
    r = E.call(parse, E.command([cmd] + ws))
    E.check(r.ok, 'parse raised')
    if not r.ok:
        return None
    E.observe('inv', r.value)
    ops = r.value.operand_list
    items, rops = ref_parse(u, ws)
    if not rops:
        E.reach('no operand')
    E.check(len(ops) <= len(rops), 'a flag, option or argument became an operand')
    E.check(len(ops) >= len(rops), 'recognition went on after the first operand')
    if len(ops) == len(rops):
        for a, b in zip(ops, rops):
            E.check(E.eq(a.name, b), 'operand is not the word given')
    return r.value


def boundary(E, p):
    u = U.get(p['cmd'], Util())
    ws = [E.word('w%d' % i, vocab(u), range(1, n + 1) if n < 6 else (5, 8, n)) for i, n in enumerate(p['raw'])]
    compare(E, u, p['cmd'], ws)


def other(E, p):
    """A command whose name only resembles an annotated one has no documented flags and options."""
    from pash_annotations.parser.parser import parse
    c = p['cmd']
    u = U.get(c, Util())
    near = ['./' + c, '../data/' + c, '/' + c, '/usr/bin/' + c, c + '.json', c + '.json/x', c + '/', c.upper(), c.capitalize(), 'x' + c, c + 'x',
            c + '-' + c, c * 100]
    near = [n for n in near if n not in U]
    name = near[E.choose('name', len(near))]
    ws = [E.word('w%d' % i, vocab(u), (1, 2)) for i in range(2)]
    inv = E.call(parse, E.command([name] + ws))
    E.check(inv.ok, 'parse raised')
    if not inv.ok:
        return
    E.observe('inv', inv.value)
    E.reach('other command')
    E.check(inv.value.cmd_name == name, 'command name')
    E.check(len(inv.value.flag_option_list) == 0, 'a flag or option of a command that documents none')
    E.check(len(inv.value.operand_list) == 2 and E.all([E.eq(a.name, b) for a, b in zip(inv.value.operand_list, ws)]),
            'operand is not the word given')


def long(E, p):
    """Several flags and options, an operand, and many words after it."""
    from pash_annotations.parser.parser import parse
    u = U.get(p['cmd'], Util())
    pre = []
    for i in range(E.choose('npre', 4)):
        if u.cf and (not u.co or i != 1):
            pre.append(E.pick('pf%d' % i, sorted(u.cf)))
        elif u.co:
            pre += [E.pick('po%d' % i, sorted(u.co)), E.word('parg%d' % i, ['-', '--'], (0, 2))]
    first = E.word('first', ['', '-', '--', '--nosuch', 'f', './-x'], (3,))
    E.assume(E.any([E.neg(E.eq(first[:1], '-')), E.eq(first, '-'), E.eq(first, '--'), E.eq(first, '--nosuch')]))
    rest = [E.word('r%d' % i, vocab(u), (2,)) for i in range(p['k'])]
    want = [first] + rest
    inv = E.call(parse, E.command([p['cmd']] + pre + want))
    E.check(inv.ok, 'parse raised')
    if not inv.ok:
        return
    E.observe('inv', inv.value)
    E.check(len(inv.value.operand_list) == len(want), 'a word after the first operand is not an operand')
    if len(inv.value.operand_list) == len(want):
        E.check(E.all([E.eq(a.name, b) for a, b in zip(inv.value.operand_list, want)]), 'operand is not the word given')


def many(E, p):
    """A long line: many flags and options in any order of two kinds, then many operands, one of which is long."""
    from pash_annotations.parser.parser import parse
    u = U.get(p['cmd'], Util())
    k = p['k']
    pre, nitems = [], 0
    if u.cf or u.co:
        mix = E.choose('mix', 3)
        for i in range(k if mix else 0):
            if u.cf and (not u.co or mix == 1 or i % 2):
                # any spelling at two of the places, a fixed one elsewhere
                pre.append(E.pick('pf%d' % i, sorted(u.cf)) if i in (1, k - 1) else sorted(u.cf)[i % len(u.cf)])
            elif u.co:
                pre += [E.pick('po%d' % i, sorted(u.co)) if i in (0, k - 2) else sorted(u.co)[i % len(u.co)],
                        E.word('parg%d' % i, ['-', '--', 'a' * 200], (2,)) if i in (0, k - 2) else 'a%d' % i]
            nitems += 1
    first = E.word('first', ['f' * 300, '-', '--'], (1,))
    E.assume(E.any([E.neg(E.eq(first[:1], '-')), E.eq(first, '-'), E.eq(first, '--')]))
    rest = ['g%d' % i for i in range(k)] + [E.word('r', vocab(u) + ['a b' * 100], (2,)) for i in range(1)] + ['-x'] * k
    want = ([first] + rest)[:(0, 1, 3 * k)[E.choose('nops', 3)]]
    inv = E.call(parse, E.command([p['cmd']] + pre + want))
    E.check(inv.ok, 'parse raised')
    if not inv.ok:
        return
    E.observe('inv', inv.value)
    E.reach('long line')
    E.check(len(inv.value.flag_option_list) == nitems, 'flags or options before the first operand')
    E.check(len(inv.value.operand_list) == len(want), 'the operands are not the words from the first operand on')
    if len(inv.value.operand_list) == len(want):
        E.check(E.all([E.eq(a.name, b) for a, b in zip(inv.value.operand_list, want)]), 'operand is not the word given')


def after(E, p):
    """[flag or option with argument]* operand anything anything"""
    u = U.get(p['cmd'], Util())
    pre = [[]]
    if u.cf:
        pre.append([E.pick('pf', sorted(u.cf))])
    if u.co:
        pre.append([E.pick('po', sorted(u.co)), E.word('parg', ['-', '--'], (0, 1))])
    pre = pre[E.choose('pre', len(pre))]
    first = E.word('first', ['', '-', '--', '---', '--nosuch', 'f', './-x'], range(1, p['raw'][0] + 1))
    items, rops = ref_parse(u, pre + [first])
    E.assume(len(rops) == 1)
    rest = [E.word('r%d' % i, vocab(u), range(1, n + 1)) for i, n in enumerate(p['raw'][1:])]
    k = E.choose('rest', 3)
    # an option lacking its argument would take the next word
    E.assume(E.neg(E.any([E.eq(first, s) for s in u.co])))
    if k and len(first) > 1 and first[0] == '-' and first[1] != '-':
        items, rops = ref_parse(u, [first, 'x'])
        E.assume(len(rops) == 2)
    if first == '':
        E.reach('empty word')
    elif first == '-':
        E.reach('dash')
    elif first == '--':
        E.reach('double dash')
    inv = E.call(lambda: __import__('pash_annotations.parser.parser', fromlist=['parse']).parse(
        E.command([p['cmd']] + pre + [first] + rest[:k])))
    E.check(inv.ok, 'parse raised')
    if not inv.ok:
        return
    E.observe('inv', inv.value)
    ops = inv.value.operand_list
    want = [first] + rest[:k]
    if k and u.cf:
        E.reach('operand looks like a flag')
    E.check(len(inv.value.flag_option_list) == (1 if pre else 0), 'flags or options before the first operand')
    E.check(len(ops) == len(want), 'a word after the first operand is not an operand')
    if len(ops) == len(want):
        for a, b in zip(ops, want):
            E.check(E.eq(a.name, b), 'operand is not the word given')
