"""C04: options take exactly the arguments the utility documents."""
from harness.ref import U, ref_parse, spellings

LEVEL = 'model_checking'
EXPECT_TAGS = ['option', 'flag', 'attached', 'letter', 'suffix']
ASSUMPTIONS = ['documented options of GNU coreutils 9, grep 3.11, sed 4.9, diffutils 3, findutils 4, gawk 5, util-linux col (harness/ref.py)',
               'long options are not abbreviated; an option that lacks its argument at the end of the line is outside the domain',
               'optional arguments attached to flags (mkfifo --context=X, gawk -ofile) are outside the domain except '
               'for sed -i and --in-place, xargs -e -i -l, diff -c -u, and the listed --flag=word spellings']
BOUNDS = {'quick': 'every annotated command with flags or options; every documented spelling, alone or in a group of two (or three with the first two from five) letters, with '
                   'separate, attached (-oX, --opt=X) or no argument of length <=2, followed by up to two arbitrary words of length <=1 or any spelling',
          'thorough': 'argument length <=4, following words of length <=2'}


def tasks(tier):
    out = []
    k = 1 if tier == 'quick' else 2
    for c in sorted(U):
        u = U[c]
        if u.flags or u.opts:
            if c == 'sed':
                out.append(dict(fn='suffix', params=dict(cmd=c, k=k), cost=5))
            for fn in ('spelled', 'letters') + (('attached',) if u.co_att else ()):
                out.append(dict(fn=fn, params=dict(cmd=c, k=k), cost=len(spellings(u)) * (2 if fn == 'letters' else 1)))
    return out


def check(E, u, cmd, ws, nops):
    """ws parsed must match the documented reading; nops is the number of trailing words that are operands or None."""
    from pash_annotations.parser.parser import parse
    from pash_annotations.datatypes.BasicDatatypes import Flag, Option
    r = E.call(parse, E.command([cmd] + ws))
    E.check(r.ok, 'parse raised')
    if not r.ok:
        return
    E.observe('inv', r.value)
    got, ops = r.value.flag_option_list, r.value.operand_list
    items, rops = ref_parse(u, ws)
    E.check(len(got) == len(items), 'number of flags and options')
    E.check(len(ops) == len(rops), 'number of operands')
    if len(got) != len(items) or len(ops) != len(rops):
        return
    for a, b in zip(got, items):
        if b.kind == 'flag':
            E.check(isinstance(a, Flag), 'a flag took an argument')
            if isinstance(a, Flag):
                E.check(E.eq(u.cf.get(a.flag_name, a.flag_name), b.name), 'another flag')
        else:
            E.check(isinstance(a, Option), 'an option did not take its argument')
            if isinstance(a, Option):
                E.check(E.eq(u.co_att.get(a.option_name, a.option_name), b.name), 'another option')
                E.check(E.eq(a.option_arg, b.arg), 'argument of an option')
    for a, b in zip(ops, rops):
        E.check(E.eq(a.name, b), 'operand')


def tail(E, u, k):
    ws = [E.word('t%d' % i, spellings(u) + ['--'] if i == 0 else ['-', 'f'], range(0, k + 1) if i == 0 else ()) for i in range(2)]
    return ws[:E.choose('tail', 3)]


def spelled(E, p):
    u = U[p['cmd']]
    k = p['k']
    w = E.pick('w', spellings(u))
    if w in u.cf:
        E.reach('flag')
        check(E, u, p['cmd'], [w] + tail(E, u, k), None)
    else:
        E.assume(w in u.co)
        E.reach('option')
        arg = E.word('arg', spellings(u) + ['--', '-'], range(0, 3 if k == 1 else 5))
        check(E, u, p['cmd'], [w, arg] + tail(E, u, k), None)


def attached(E, p):
    u = U[p['cmd']]
    w = E.pick('w', sorted(u.co_att))
    E.reach('attached')
    if len(w) == 2:
        arg = E.word('arg', ['-', 'a=b', '-x', '1,3'], range(1, 3 if p['k'] == 1 else 5))
        word = w + arg
    else:
        arg = E.word('arg', ['-', 'a=b', '--x', '=', '1 2'], range(0, 3 if p['k'] == 1 else 5))
        word = w + '=' + arg
    check(E, u, p['cmd'], [word] + tail(E, u, p['k']), None)


def letters(E, p):
    """A group of two letters, or of three of which the first two come from fewer, each a documented flag or option."""
    u = U[p['cmd']]
    ls = [s[1] for s in spellings(u) if len(s) == 2]
    if not ls:
        return
    n = 2 + E.choose('n', 2)
    w = '-'
    few = ([s for s in ls if '-' + s in u.cf][:3] + [s for s in ls if '-' + s in u.co][:2])
    for i in range(n):
        w = w + E.pick('l%d' % i, few if n == 3 and i < 2 else ls)
    E.reach('letter')
    check(E, u, p['cmd'], [w] + [E.word('t0', ['f', '-', '--'] + spellings(u)[:2], (0, 1))] + ['f'], None)


def suffix(E, p):
    """sed -iSUFFIX and --in-place=SUFFIX edit in place and keep a backup."""
    from pash_annotations.parser.parser import parse
    suf = E.word('suf', ['.bak', '~'], (1, 2))
    w = '-i' + suf if E.choose('form', 2) == 0 else '--in-place=' + suf
    r = E.call(parse, E.command([p['cmd'], w, 's/a/b/', 'f']))
    E.check(r.ok, 'parse raised')
    if not r.ok:
        return
    E.reach('suffix')
    E.check_known('sed-suffix', True, len(r.value.operand_list) == 2 and len(r.value.flag_option_list) > 0 and
                  E.eq(r.value.flag_option_list[0].get_name(), '-i'), 'sed -i or --in-place with a backup suffix')
