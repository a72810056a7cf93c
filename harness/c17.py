"""C17: each command is offered exactly its documented parallelizers."""
from harness import iolib, paralib
from harness.ref import U, UNKNOWN, Util, spellings

LEVEL = 'model_checking'
EXPECT_TAGS = ['none', 'no information', 'pair', 'merge', 'unimplemented', 'commutative', 'tr newline', 'tr plain', 'sed line-wise', 'sed other',
               'bigrams', 'inferred']
ASSUMPTIONS = ['tr sets are read as tr(1) describes: escapes, ranges, [:space:] and [:cntrl:]; [=c=] and [c*n] count as their characters',
               'the order of the offered parallelizers is not constrained',
               '--help and --version are outside the domain']
BOUNDS = {'quick': 'every annotated command and an unknown one; every combination of up to two flags and options in every spelling (three for grep, '
                   'sort, uniq, tr and up to six for all from their primary names, in the main orders); option arguments of length <=1, for sort -k and --sort any of length <=3; tr sets of length '
                   '<=3 over newline, tab, backslash, -, [, ], :, letters, digits; sed scripts of length <=5 over a 14-letter alphabet; 0-2 operands',
          'thorough': 'three flags and options in every spelling, tr sets of length <=4, sed scripts of length <=7'}
NO = ['awk', 'cat', 'comm', 'diff', 'head', 'mkfifo', 'mv', 'rm', 'seq', 'tail', 'tee', 'wc', 'alt_bigram_aux_reduce', 'bigram_aux_map',
      'bigram_aux_reduce', 'export']
YES = ['cut', 'tr', 'col', 'custom_tr', 'xargs', 'grep', 'sort', 'custom_sort', 'uniq', 'sed', 'set_diff', 'test_one', 'test_two',
       'alt_bigrams_aux', 'bigrams_aux']
TRCHARS = '\n\t\\-[]:nav0127z'


def tasks(tier):
    t = tier == 'thorough'
    out = []
    for c in YES + NO + UNKNOWN:
        for s in iolib.shapes(c, (3 if t else 2) if c in YES else 1):
            out.append(dict(fn='offered', params=dict(cmd=c, shape=s), cost=(1 + len(spellings(U.get(c, Util())))) ** len(s)))
    for c in ('grep', 'sort', 'uniq', 'tr'):
        for s in ('fff', 'ffo', 'off') if U[c].opts else ('fff',):
            out.append(dict(fn='offered', params=dict(cmd=c, shape=s, primary=True), cost=5000))
    # long lines of primary names
    for c in YES + NO:
        ex = iolib.excluded(c)
        ks = ('f' if any(x[0] not in ex for x in U[c].flags) else '') + ('o' if U[c].opts else '') if c in U else ''
        heavy = c in ('grep', 'sort', 'uniq', 'tr', 'sed')
        for s in {'': [], 'f': ['ffff', 'f' * 6], 'o': ['oooo'], 'fo': ['ffff', 'ffoff', 'ooo', 'foofo']}[ks]:
            if not heavy or len(s) == 4:
                out.append(dict(fn='offered', params=dict(cmd=c, shape=s, primary=True), cost=4000 if heavy else 10))
    out.append(dict(fn='custom_sort', params=dict(n=3 if t else 2), cost=3000))
    for n in range(0, 5 if t else 4):
        for m in (-1, 0, 1, 2) if not t else (-1, 0, 1, 2, 3):
            if n + m <= (6 if t else 4):
                out.append(dict(fn='tr', params=dict(n=n, m=m), cost=20 * 4 ** (n + m)))
    for cl in range(4):
        out.append(dict(fn='tr_vocab', params=dict(c=cl), cost=1000))
    for n in range(0, 8 if t else 6):
        out.append(dict(fn='sed', params=dict(n=n), cost=10 * 5 ** n))
    out.append(dict(fn='sed_vocab', params={}, cost=1000))
    return out


def judge(E, cmd, items, ops, inv):
    from pash_annotations.annotation_generation.AnnotationGeneration import get_parallelizability_info_from_cmd_invocation as para
    r = E.call(para, inv)
    E.check(r.ok, 'asking raised')
    if not r.ok:
        return None
    want, comm = paralib.expected(E, cmd, items, ops)
    E.observe('info', None if r.value is None else [len(r.value.parallelizer_list), r.value.is_commutative])
    if want is None:
        E.reach('no information')
        E.check(r.value is None or len(r.value.parallelizer_list) == 0, 'parallelizers for a command that has none')
        return None
    E.check(r.value is not None, 'no information')
    if r.value is None:
        return None
    E.reach('none' if not want else 'pair' if len(want) == 2 and want[0].implemented else 'unimplemented' if not want[0].implemented
            else 'merge' if comm else 'bigrams' if 'bigram' in cmd else 'one')
    if comm:
        E.reach('commutative')
    paralib.compare(E, r.value, want, comm)
    inferred = r.value.get_inferred_parallelizer_list()
    E.check(len(inferred) == len(want) + (1 if comm else 0), 'number of parallelizers with inferred ones')
    E.reach('inferred')
    return want


def offered(E, p):
    from pash_annotations.parser.parser import parse
    cmd = p['cmd']
    u = U.get(cmd, Util())
    words, items = [], []
    if p.get('primary'):
        ex = iolib.excluded(cmd)
        for i, k in enumerate(p['shape']):
            if k == 'f':
                w = E.pick('f%d' % i, [x[0] for x in u.flags if x[0] not in ex])
                words.append(w)
                items.append(iolib.Item('flag', w, None))
            else:
                w = E.pick('o%d' % i, [x[0][0] for x in u.opts])
                words += [w, '1']
                items.append(iolib.Item('opt', w, '1'))
    else:
        long = cmd == 'sort' and p['shape'] in ('o', 'of')
        words, items = iolib.items_of(E, cmd, p['shape'], 3 if long else 1, ('-', 'random', 'numeric', '1,2R', 'r', '2') if cmd == 'sort' else ('-', 's/a/b/'))
    if cmd == 'tr':
        ops = [E.pick('x', ['a', '\n'])] + [E.pick('y', ['b', '\\n'])][:E.choose('nops', 2)] if not p.get('primary') else ['a', '\n'][:1 + E.choose('nops', 2)]
    else:
        ops = (['s/a/b/'] if cmd == 'sed' else ['x']) + ['f']
        ops = ops[:E.choose('nops', 3)]
    inv = parse(E.command([cmd] + words + ops))
    E.check(len(inv.flag_option_list) == len(items) and len(inv.operand_list) == len(ops), 'parsed differently')
    judge(E, cmd, items, ops, inv)


def custom_sort(E, p):
    """custom_sort has no flags of its own to parse; its generator looks at those of sort."""
    from pash_annotations.datatypes.BasicDatatypes import Flag, Option, Operand
    from pash_annotations.datatypes.CommandInvocationInitial import CommandInvocationInitial
    u = U['sort']
    fol, items = [], []
    for i in range(E.choose('n', p['n'] + 1)):
        if E.choose('kind%d' % i, 2) == 0:
            w = E.pick('f%d' % i, [x[0] for x in u.flags if x[0][:2] != '--' or x[0] == '--debug'])
            fol.append(Flag(w))
            items.append(iolib.Item('flag', w, None))
        else:
            w = E.pick('o%d' % i, [x[0][0] for x in u.opts])
            a = E.word('a%d' % i, ['random', '1,2R', '2'], (0, 1, 2))
            fol.append(Option(w, a))
            items.append(iolib.Item('opt', w, a))
    judge(E, 'custom_sort', items, [], CommandInvocationInitial('custom_sort', fol, []))


def tr(E, p):
    """Arbitrary sets under every combination of -c, -d and -s."""
    from pash_annotations.parser.parser import parse
    fl = [('-c', E.choose('c', 2)), ('-d', E.choose('d', 2)), ('-s', E.choose('s', 2))]
    fl = [f for f, b in fl if b]
    ops = [E.word('s1', (), (p['n'],), TRCHARS)]
    if p['m'] >= 0:
        ops.append(E.word('s2', (), (p['m'],), TRCHARS))
    if p['n'] > 0:
        # a first operand that looks like flags is one
        E.assume(E.neg(E.all([E.eq(ops[0][:1], '-'), p['n'] > 1])))
    run_tr(E, fl, ops)


def tr_vocab(E, p):
    """Classes, ranges and escapes in full length."""
    V = ['[:space:]', '[:cntrl:]', '[:alpha:]', '[:blank:]', 'a[:space:]', '[:upper:]\n', '\\n', '\\012', '\\12', 'a\\n', '\\0-\\40', 'A-Z', 'A-Za-z0-9', '\\000-\\011',
         '\\013-\\377', '\\\\n', ' ', ' \n', '[:punct:]', '\t-\r', '[:spac:]', '[: :]', 'a-', '\\t-\\r', 'x\\nx', '\\0121', '[:space', '\\400']
    fl = [f for f, b in (('-c', p['c'] & 1), ('-d', p['c'] & 2), ('-s', E.choose('s', 2))) if b]
    ops = [E.pick('s1', V), E.pick('s2', V)][:1 + E.choose('n', 2)]
    run_tr(E, fl, ops)


def run_tr(E, fl, ops):
    from pash_annotations.parser.parser import parse
    inv = parse(E.command(['tr'] + fl + ops))
    want = judge(E, 'tr', [iolib.Item('flag', f, None) for f in fl], ops, inv)
    if want is not None:
        E.reach('tr newline' if not want[0].implemented else 'tr plain')


def sed(E, p):
    script = E.word('s', (), (p['n'],), 'sdpy/;,1$ \\\ng!')
    run_sed(E, script, E.choose('e', 2) if p['n'] < 4 else 0)


def sed_vocab(E, p):
    script = E.pick('s', ['s/a/b/', 's/a/b/g', 's/a/b/;s/c/d/', 's/a/b/g;d', '/x/d', '/x/s/a/b/', 'y/abc/xyz/', '1d', '$d', '2,3p', '/a/,/b/d', 'N', 'x', 'G',
                          'h;G', '=', 'q', 's/a/b/w out', '/x/!d', 's//b/', 's,a,b,', 's|a\\|b|c|', '/a/{d}', 'a text', 'n;d', '$!N', ':a;N;ba', '1~2d', '0,/a/d',
                          's/a/b/e', 's/a/b/M', '/a/I d', 's/a/b/ ; s/c/d/', 'l', 'D', 'P', 'c x', 'i x', 'r f', '#n', '{p}', '/a/q', '//d', 's/\\n/x/', '\\,a,d', ''])
    run_sed(E, script, E.choose('e', 2))


def run_sed(E, script, e):
    from pash_annotations.parser.parser import parse
    E.assume(E.neg(E.eq(script[:1], '-')))
    if e:
        inv = parse(E.command(['sed', '-e', script, 'f']))
        want = judge(E, 'sed', [iolib.Item('opt', '-e', script)], ['f'], inv)
    else:
        inv = parse(E.command(['sed', script, 'f']))
        want = judge(E, 'sed', [], [script, 'f'], inv)
    if want is not None:
        E.reach('sed line-wise' if want else 'sed other')
