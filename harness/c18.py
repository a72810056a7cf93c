"""C18: the sort aggregator merges under the same ordering."""
from harness import iolib, paralib
from harness import iovlib as L
from harness.ref import U, spellings

LEVEL = 'model_checking'
EXPECT_TAGS = ['aggregator', 'no aggregator', 'ordering flag', 'ordering option', 'custom_sort', 'refused', 'output option']
ASSUMPTIONS = ['the two inputs and the output are distinct identifiers that are not used by other files of the command',
               'options that change neither order nor output (-S, --parallel, --batch-size, --compress-program, -T) may be kept or dropped',
               '--help and --version are outside the domain']
BOUNDS = {'quick': 'sort with every combination of up to three flags and options in every spelling and four in some orders from primary names; custom_sort with '
                   'up to three of sort\'s flags and options; option arguments of length <=2; 0-2 operands; arbitrary identifiers',
          'thorough': 'four flags and options in every spelling, five in some orders from primary names'}
ORDER_FLAGS = ['-b', '-d', '-f', '-g', '-h', '-i', '-M', '-n', '-r', '-V']
ORDER_OPTS = ['-k', '-t', '--sort']
HARMLESS = ['-S', '--parallel', '--batch-size', '--compress-program', '-T']


def tasks(tier):
    t = tier == 'thorough'
    out = []
    for s in iolib.shapes('sort', 4 if t else 3):
        out.append(dict(fn='sort', params=dict(shape=s), cost=(1 + len(spellings(U['sort']))) ** len(s)))
    for s in ('ffff', 'fffo', 'offf', 'ffoo', 'fofo', 'oofo') if not t else ('fffff', 'fffof', 'offof', 'ffoof', 'ofooo', 'ooffo'):
        out.append(dict(fn='sort', params=dict(shape=s, primary=True), cost=20000))
    for n in range(0, 5 if t else 4):
        out.append(dict(fn='custom', params=dict(n=n), cost=3000))
    return out


def primary(E, shape, arglen):
    u = U['sort']
    words, items = [], []
    for i, k in enumerate(shape):
        if k == 'f':
            w = E.pick('f%d' % i, [x[0] for x in u.flags if x[0] not in ('--help', '--version')])
            words.append(w)
            items.append(iolib.Item('flag', w, None))
        else:
            w = E.pick('o%d' % i, [x[0][0] for x in u.opts])
            a = E.word('a%d' % i, ['r'] if arglen else ['1'], range(0, arglen))
            words += [w, a]
            items.append(iolib.Item('opt', w, a))
    return words, items


def sort(E, p):
    from pash_annotations.parser.parser import parse
    words, items = primary(E, p['shape'], 2) if p.get('primary') else \
        iolib.items_of(E, 'sort', p['shape'], 1, ('-', 'r', '1,2R', 'numeric'))
    ops = ['f', 'g'][:E.choose('nops', 3)] if not p.get('primary') else ['f']
    inv = parse(E.command(['sort'] + words + ops))
    E.check(len(inv.flag_option_list) == len(items) and len(inv.operand_list) == len(ops), 'parsed differently')
    if len(inv.flag_option_list) == len(items) and len(inv.operand_list) == len(ops):
        run(E, 'sort', items, ops, inv)


def custom(E, p):
    from pash_annotations.datatypes.BasicDatatypes import Flag, Option, Operand
    from pash_annotations.datatypes.CommandInvocationInitial import CommandInvocationInitial
    u = U['sort']
    fol, items = [], []
    for i in range(p['n']):
        if E.choose('kind%d' % i, 2) == 0:
            w = E.pick('f%d' % i, [x[0] for x in u.flags if x[0] not in ('--help', '--version')])
            fol.append(Flag(w))
            items.append(iolib.Item('flag', w, None))
        else:
            # options naming files are not documented for custom_sort
            w = E.pick('o%d' % i, [x[0][0] for x in u.opts if u.oaccess[x[0][0]] is None])
            a = E.word('a%d' % i, ['random', '1,2R', '2'], (0, 1))
            fol.append(Option(w, a))
            items.append(iolib.Item('opt', w, a))
    E.reach('custom_sort')
    run(E, 'custom_sort', items, [], CommandInvocationInitial('custom_sort', fol, []))


def with_vars(E, items, ops, cmd):
    """The invocation over stream identifiers: files get 10, 11, ... (what the compiler does with it)."""
    from pash_annotations.datatypes.BasicDatatypes import Flag, ArgStringType
    from pash_annotations.datatypes.BasicDatatypesWithIOVar import OptionWithIOVar
    from pash_annotations.datatypes.CommandInvocationWithIOVars import CommandInvocationWithIOVars
    from pash_annotations.datatypes.AccessKind import AccessKind, AccessKindEnum
    u = U['sort']
    amap, fol = {}, []
    n = [10]

    def new(k):
        n[0] += 1
        amap[n[0]] = AccessKind(getattr(AccessKindEnum, k))
        return n[0]
    output_option = False
    for it in items:
        if it.kind == 'flag':
            fol.append(Flag(it.name))
        elif E.eq(u.oaccess[it.name], None):
            fol.append(OptionWithIOVar(it.name, ArgStringType(it.arg)))
        else:
            k = 'STREAM_OUTPUT' if E.eq(it.name, '-o') else 'OTHER_OUTPUT' if E.eq(it.name, '-T') else 'CONFIG_INPUT'
            output_option = output_option or k == 'STREAM_OUTPUT'
            fol.append(OptionWithIOVar(it.name, new(k)))
    opl = [new('STREAM_INPUT') for _ in ops]
    ii = None if ops else new('STREAM_INPUT')
    io = None if output_option else new('STREAM_OUTPUT')
    if output_option:
        E.reach('output option')
    return CommandInvocationWithIOVars(cmd, fol, opl, ii, io, amap)


def run(E, cmd, items, ops, inv):
    from pash_annotations.annotation_generation.AnnotationGeneration import get_parallelizability_info_from_cmd_invocation as para
    from pash_annotations.datatypes.BasicDatatypes import Flag, ArgStringType
    r = E.call(para, inv)
    E.check(r.ok and r.value is not None, 'no information')
    if not (r.ok and r.value is not None):
        return
    pars = r.value.get_inferred_parallelizer_list()
    if not pars:
        E.reach('no aggregator')
        return
    withvars = with_vars(E, items, ops, cmd)
    i1, i2, out = E.pick('in1', [0, 1, 2]), E.pick('in2', [0, 1, 2]), E.pick('out', [0, 1, 3])
    L.notin(E, i2, [i1])
    L.notin(E, out, [i1, i2])
    for par in pars:
        a = E.call(par.get_actual_aggregator, withvars, [i1, i2], out)
        E.check(a.ok and a.value is not None, 'no aggregator')
        if not (a.ok and a.value is not None):
            continue
        E.reach('aggregator')
        agg = a.value
        E.observe('agg', agg)
        E.check(E.eq(agg.cmd_name, cmd), 'command name')
        ordering(E, items, agg)
        fo, aops, ii, io = L.layout(E, agg)
        E.check(E.same([list(x) for x in aops], [['V', i1], ['V', i2]]), 'does not read exactly the two inputs in order')
        E.check(ii is None, 'reads standard input as well')
        E.check(E.same(io, out), 'does not write the given output')
        g = E.call(agg.generate_inputs)
        E.check(g.ok and E.same(list(g.value.get_streaming_inputs()), [i1, i2]), 'streaming inputs')
        L.access_is(E, agg, out, 'STREAM_OUTPUT', 'output')
        for x in fo:
            if x[0] == 'V':
                E.check(E.any([E.eq(x[1], '-T')]), 'another file in an option')
    for k in (1, 3):
        a = E.call(pars[0].get_actual_aggregator, withvars, [30, 31, 32][:k], 33)
        E.reach('refused')
        E.check(not a.ok, 'a wrong number of inputs is accepted')


def ordering(E, items, agg):
    """-m once; every ordering flag and option with its argument, in order; besides only harmless options of the original."""
    from pash_annotations.datatypes.BasicDatatypes import Flag, ArgStringType
    fol = agg.flag_option_list
    E.check(E.eq(E.count([E.eq(x.get_name(), '-m') for x in fol]), 1), '-m is not there exactly once')
    E.check(E.all([isinstance(x, Flag) for x in fol if not hasattr(x, 'option_arg')]), 'neither flag nor option')
    want = []
    for it in items:
        if it.kind == 'flag':
            if E.any([E.eq(it.name, f) for f in ORDER_FLAGS]):
                want.append(it)
                E.reach('ordering flag')
        elif E.any([E.eq(it.name, f) for f in ORDER_OPTS]):
            want.append(it)
            E.reach('ordering option')
    got = []
    for x in fol:
        n = x.get_name()
        if E.any([E.eq(n, h) for h in HARMLESS]) and not isinstance(x, Flag):
            E.check(E.any([E.all([it.kind == 'opt', E.eq(it.name, n)]) for it in items]), 'an option the original does not have')
        elif not (E.eq(n, '-m') and isinstance(x, Flag)):
            got.append(x)
    E.check(len(got) == len(want), 'ordering flags and options are lost or added')
    if len(got) != len(want):
        return
    for x, it in zip(got, want):
        E.check(E.eq(x.get_name(), it.name), 'another ordering flag or option, or another order')
        if it.kind == 'flag':
            E.check(isinstance(x, Flag), 'a flag became an option')
        else:
            ok = not isinstance(x, Flag) and isinstance(x.option_arg, ArgStringType)
            E.check(ok, 'an option lost its argument')
            if ok:
                E.check(E.eq(x.option_arg.name, it.arg), 'another argument')
