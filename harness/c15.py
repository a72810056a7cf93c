"""C15: annotations do not depend on the names of data files or on plain parameters."""
from harness import iolib
from harness.ref import U, UNKNOWN, Util

LEVEL = 'model_checking'
EXPECT_TAGS = ['operand', 'argument', 'information', 'parallelizability', 'no information']
ASSUMPTIONS = ['an ordinary file name is a non-empty word that does not start with - and, for awk, contains no =',
               'plain parameters: option arguments that are no files, but for sort keys and sort modes, which select the ordering, and programs given '
               'with -e or -E']
BOUNDS = {'quick': 'every annotated utility; up to two flags and options in every spelling; up to three operands; each data operand any pair of names and each '
                   'plain parameter any pair of texts of length 1 to 12',
          'thorough': 'up to three flags and options, five operands, lengths up to 15'}
DATA = (iolib.SI, iolib.SO, iolib.OI, iolib.OO, iolib.CI)
# (file names in option arguments may change, too)
SELECTS = {'sort': ['-k', '--sort'], 'custom_sort': ['-k', '--sort'], 'sed': ['-e'], 'awk': ['-e', '-E'], 'grep': []}
PROGRAMS = {'sed': ['s/a/b/', '3d', 'p'], 'tr': ['a-z', '\\n', '[:space:]'], 'sort': ['1', '1R', 'random', '2,3nr'],
            'custom_sort': ['1', '1R', 'random', '2,3nr']}
LENGTHS = tuple(range(1, 13))


def tasks(tier):
    out = []
    t = tier == 'thorough'
    for c in iolib.IO_CMDS:
        u = U.get(c, Util())
        for s in iolib.shapes(c, 3 if t else 2):
            out.append(dict(fn='renamed', params=dict(cmd=c, shape=s, nops=5 if t else 3 if len(s) < 2 else 2, lens=list(range(1, 16)) if t else LENGTHS),
                            cost=(1 + len(u.cf) * s.count('f') + 2 * len(u.co) * s.count('o')) ** max(1, len(s))))
    return out


def pair(E, name, lens, cmd, dash=False):
    out = []
    for k in 'xy':
        w = E.word(name + k, [], lens)
        E.assume(E.neg(E.eq(w[:1], '-')))
        out.append(w)
    return out


def renamed(E, p):
    from pash_annotations.parser.parser import parse
    from pash_annotations.annotation_generation.AnnotationGeneration import get_input_output_info_from_cmd_invocation as io
    from pash_annotations.annotation_generation.AnnotationGeneration import get_parallelizability_info_from_cmd_invocation as para
    from pash_annotations.datatypes.BasicDatatypesWithIO import OptionWithIO
    cmd = p['cmd']
    u = U.get(cmd, Util())
    ex = iolib.excluded(cmd)
    n = E.choose('n', p['nops'] + 1)
    wa, wb, items, changed_args = [], [], [], []
    for i, k in enumerate(p['shape']):
        if k == 'f':
            w = E.pick('f%d' % i, [s for s in sorted(u.cf) if u.cf[s] not in ex])
            wa.append(w)
            wb.append(w)
            items.append(iolib.Item('flag', u.cf[w], None))
            continue
        w = E.pick('o%d' % i, [s for s in sorted(u.co) if u.co[s] not in ex])
        name = u.co[w]
        a, b = pair(E, 'a%d' % i, p['lens'], cmd)
        keep = E.any([E.eq(name, s) for s in SELECTS.get(cmd, [])])
        fixed = E.pick('p%d' % i, PROGRAMS.get(cmd, ['prog']))
        a, b = E.ite(keep, fixed, a), E.ite(keep, fixed, b)
        wa += [w, a]
        wb += [w, b]
        changed_args.append((i, a, b))
        items.append(iolib.Item('opt', name, a))
    sp = iolib.spec(E, cmd, items, n)
    if sp == 'any':
        return
    changed_ops = []
    for i in range(n):
        a, b = pair(E, 'n%d' % i, p['lens'], cmd)
        if sp != 'none' and sp.ops[i] not in DATA:
            a = b = E.pick('q%d' % i, PROGRAMS.get(cmd, ['prog', '1']))
        else:
            E.reach('operand')
            if cmd == 'awk':
                E.assume(E.all(['=' not in a, '=' not in b]))
        wa.append(a)
        wb.append(b)
        changed_ops.append((a, b))
    if changed_args:
        E.reach('argument')
    va, vb = parse(E.command([cmd] + wa)), parse(E.command([cmd] + wb))
    ia, ib, pa, pb = io(va), io(vb), para(va), para(vb)
    E.observe('a', [ia, pa])
    E.check(E.same(pa, pb), 'parallelizability depends on a file name or plain parameter')
    E.reach('parallelizability' if pa is not None else 'none')
    E.check(E.same(ia, ib), 'input/output information depends on a file name or plain parameter')
    E.reach('information' if ia is not None else 'no information')
    if ia is None or ib is None:
        return
    E.check(E.eq(ia.has_other_outputs(), ib.has_other_outputs()), 'other outputs depend on a file name or plain parameter')
    aa, ab = ia.apply_input_output_info_to_command_invocation(va), ib.apply_input_output_info_to_command_invocation(vb)
    E.check(len(aa.operand_list) == n == len(ab.operand_list) and len(aa.flag_option_list) == len(ab.flag_option_list) == len(p['shape']), 'numbers')
    if not (len(aa.operand_list) == n == len(ab.operand_list) and len(aa.flag_option_list) == len(ab.flag_option_list) == len(p['shape'])):
        return
    args = [(aa.flag_option_list[i].option_arg, ab.flag_option_list[i].option_arg, x, y) for i, x, y in changed_args]
    args += [(aa.operand_list[i], ab.operand_list[i], x, y) for i, (x, y) in enumerate(changed_ops)]
    for x, y, s, t in args:
        E.check(E.all([E.eq(x.name, s), E.eq(y.name, t)]), 'another name is reported')
        x.name = y.name = 'name'
    E.check(E.same(aa, ab), 'the role of a position depends on a name')
