"""C20: a mapper is the original command with its streams replaced."""
from harness import iovlib as L
from harness.c21 import string_command

LEVEL = 'model_checking'
EXPECT_TAGS = ['seq', 'name', 'inherit', 'filter', 'remove', 'add', 'string', 'unimplemented', 'in option', 'in operand', 'implicit', 'same identifier', 'second']
ASSUMPTIONS = ['the invocation has one streaming input and one streaming output (mappers are only defined for these)',
               'new identifiers are not ones that stay in the invocation with another access kind; input and output differ',
               'identifiers are only compared, so their equality pattern and which of them is 0 stand for all values']
BOUNDS = {'quick': 'up to 2 flags and options, up to 3 operands, implicit input and output, at most 3 identifiers in all; one streaming input '
                   'and one streaming output in any position; the others of any kind; same-as-original, renamed, filtering, removing, adding '
                   'and string-given mapper specifications (any two flags in any spelling); two mappers made in a row',
          'thorough': 'at most 4 identifiers, every arrangement'}
KINDS = ('seq', 'name', 'inherit', 'filter', 'remove', 'add', 'string', 'unimplemented')


def tasks(tier):
    q = tier == 'quick'
    sh = [s for s in (L.quick_shapes(3) if q else L.shapes(4)) if L.nvars(s) >= 2]
    few = [('F', 'V', 0, 1), ('V', 'SV', 0, 0), ('', '', 1, 1)]
    return [t for k in KINDS for t in L.chunked('mapper', sh, 6 if q else 24, kind=k)] + L.chunked('mapper', few, 3, kind='strings')


def spec(E, kind):
    """(mapper specification, command name, reference for the flags and options)"""
    from pash_annotations.annotation_generation.datatypes.parallelizability import MapperSpec as M
    from pash_annotations.annotation_generation.datatypes.parallelizability import TransformerFlagOptionList as T
    from pash_annotations.datatypes.BasicDatatypes import Flag
    if kind == 'seq':
        return M.make_mapper_spec_seq(), None, lambda l: l
    if kind == 'name':
        n = E.word('name', ['other', './other'], (1, 2))
        return M.make_mapper_spec_custom(n, is_implemented=True), n, lambda l: l
    if kind == 'inherit':
        k = E.choose('t', 3)
        return M.make_mapper_spec_custom(None, [None, T.make_transformer_add([Flag('-z')]), T.make_transformer_remove(['-q'])][k],
                                         is_implemented=True), None, \
            lambda l: list(l) + ([('F', '-z', None)] if k == 1 else [])
    if kind == 'filter':
        return M.make_mapper_spec_custom('other', T.make_transformer_filter(['-a']), is_implemented=True), 'other', \
            lambda l: [x for x in l if E.eq(x[1], '-a')]
    if kind == 'remove':
        return M.make_mapper_spec_custom('other', T.make_transformer_remove(['-a']), is_implemented=True), 'other', \
            lambda l: [x for x in l if not E.eq(x[1], '-a')]
    if kind == 'add':
        return M.make_mapper_spec_custom('other', T.make_transformer_add([Flag('-z')]), is_implemented=True), 'other', \
            lambda l: list(l) + [('F', '-z', None)]
    if kind in ('string', 'strings'):
        text, name, flags = string_command(E, kind == 'strings')
        return M.make_mapper_spec_custom_from_string_representation(text, is_implemented=True), name, lambda l: [('F', f, None) for f in flags]
    return [M.make_mapper_spec_custom('other'), M.make_mapper_spec_custom_from_string_representation('other')][E.choose('u', 2)], '', None


def mapper(E, p):
    from pash_annotations.annotation_generation.datatypes.parallelizability.Parallelizer import make_parallelizer_consec_chunks
    import copy
    kind = p['kind']
    E.reach(kind)
    sp, name, ref = spec(E, kind)
    r = L.build(E, p['shapes'][E.choose('shape', len(p['shapes']))], names=['-a', '-b'] if kind in ('filter', 'remove') else ['-a'], kinds=L.KINDS[:4])
    name = r.cmd if name is None else name
    if ref is not None:
        r.fo = ref(r.fo)
    r.slots = L.vars_of(r.fo, r.ops, r.iin, r.iout)
    E.assume(L.number(E, r, 'STREAM_INPUT') == 1 and L.number(E, r, 'STREAM_OUTPUT') == 1)
    par = make_parallelizer_consec_chunks(mapper_spec=sp)
    pb = copy.deepcopy(vars(par))
    before = copy.deepcopy(vars(r.inv))
    m0 = None
    for k in (0, 1) if kind == 'seq' else (0,):
        # the second mapper has only new identifiers
        if k == 0:
            ins = L.fresh(E, r, 'in', 1, lambda v: E.neg(L.is_kind(E, r, v, 'STREAM_INPUT')))
            outs = L.fresh(E, r, 'out', 1, lambda v: E.neg(L.is_kind(E, r, v, 'STREAM_INPUT', 'STREAM_OUTPUT')))
        else:
            ins, outs = [len(r.pool) + 2], [len(r.pool) + 3]
            E.reach('second')
        L.notin(E, ins[0], outs)
        res = E.call(par.get_actual_mapper, r.inv, ins[0], outs[0], [])
        E.check(res.ok, 'making the mapper raised')
        if not res.ok:
            return
        if kind == 'unimplemented':
            E.check(res.value is None, 'an unimplemented mapper')
            return
        m = res.value
        E.check(m is not None, 'no mapper')
        if m is None:
            return
        E.observe('m', m)
        want = L.substituted(E, r, ins, outs)
        if want is None:
            return
        lay, kinds = want
        check(E, m, name, lay, kinds)
        E.check(E.same(vars(r.inv), before), 'the original invocation changed')
        E.check(E.same(vars(par), pb), 'the parallelizer changed')
        if k == 0:
            m0 = (m, name, lay, kinds)
            if E.eq(ins[0], r.slots[0]):
                E.reach('same identifier')
            if r.iin is not None and L.is_kind(E, r, r.iin, 'STREAM_INPUT'):
                E.reach('implicit')
            if any(x[0] == 'V' and L.is_kind(E, r, x[1], 'STREAM_INPUT') for x in r.ops):
                E.reach('in operand')
            if any(x[0] == 'V' and L.is_kind(E, r, x[2], 'STREAM_INPUT') for x in r.fo):
                E.reach('in option')
        else:
            check(E, *m0)


def check(E, m, name, lay, kinds):
    E.check(E.eq(m.cmd_name, name), 'command name')
    L.same_layout(E, m, lay, 'mapper')
    for v, k in zip(L.vars_of(*lay), kinds):
        L.access_is(E, m, v, k, 'mapper')
