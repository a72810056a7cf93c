"""C21: aggregators read the given inputs in order and write the given output."""
from harness import iovlib as L

LEVEL = 'model_checking'
EXPECT_TAGS = ['concatenate', 'string', 'transformed', 'refused', 'unimplemented', 'second', 'four inputs', 'no input']
ASSUMPTIONS = ['the output is none of the inputs; for aggregators transformed from the command the inputs are distinct, new or former '
               'streaming inputs (not of an option that is dropped), the command writes its stream to its implicit output or an operand and has no argument-string operands',
               'identifiers are only compared, so their equality pattern and which of them is 0 stand for all values']
BOUNDS = {'quick': 'every aggregator kind and way to specify it; invocations with up to 2 flags and options and 2 operands, at most 2 identifiers '
                   'of any kind; 0-4 inputs with arbitrary identifiers; commands given as a string with any two flags in any spelling; two aggregators made in a row',
          'thorough': 'invocations with at most 3 identifiers; 0-5 inputs'}


def tasks(tier):
    q = tier == 'quick'
    out = []
    sh = L.quick_shapes(2 if q else 3)
    few = [('', '', 0, 0), ('F', 'V', 0, 1), ('V', 'S', 1, 1), ('', 'SV', 1, 0)]
    for k in ('conc', 'str2', 'strn', 'none'):
        for n in range(0, 5 if q else 6):
            out.append(dict(fn='fixed', params=dict(kind=k, n=n, shapes=few), cost=50))
    sh = [s for s in sh if 'S' not in s[1]]
    for k in ('tr1', 'tr2', 'trn'):
        for n in range(0, 4 if q else 5):
            full = not q or (k, n) in (('tr2', 2), ('trn', 3))
            out += L.chunked('transformed', sh if full else few[:2] + [('V', '', 1, 1)], 4 if full else 1, kind=k, n=n)
    return out


def inputs(E, r, n, hi):
    return [E.pick('i%d' % k, list(range(hi))) for k in range(n)]


def string_command(E, full):
    """(command line, its name, its flags) as a specification may give them."""
    from harness.ref import U
    k = E.choose('text', 7 if full else 1)
    if k < 4:
        return [('sort -m --reverse', 'sort', ['-m', '-r']), ('runtime/agg/opt/concat.sh', 'runtime/agg/opt/concat.sh', []), ("'my agg'", 'my agg', []),
                ('wc -lwc -l', 'wc', ['-l', '-w', '-c', '-l'])][k]
    c = ['grep', 'sort', 'uniq'][k - 4]
    w = [E.pick('s%d' % i, sorted(U[c].cf)) for i in range(2)]
    return E.command([c] + w), c, [E.table(lambda s: U[c].cf[s], x) for x in w]


def fixed(E, p):
    """Concatenation and aggregators given as a command string; and everything that is not implemented."""
    from pash_annotations.annotation_generation.datatypes.parallelizability import AggregatorSpec as A
    from pash_annotations.annotation_generation.datatypes.parallelizability.Parallelizer import make_parallelizer_consec_chunks
    import copy
    kind, n = p['kind'], p['n']
    shape = p['shapes'][E.choose('shape', len(p['shapes']))]
    r = L.build(E, shape, kinds=L.KINDS[:4], ids=list(range(L.nvars(shape))))
    flags = []
    if kind == 'conc':
        sp, name = A.make_aggregator_spec_concatenate(), 'cat'
    elif kind == 'str2':
        sp, name = A.make_aggregator_spec_custom_2_ary_from_string_representation('merge_it', is_implemented=True), 'merge_it'
    elif kind == 'strn':
        text, name, flags = string_command(E, n == 2 and shape == p['shapes'][1])
        sp = A.make_aggregator_spec_custom_n_ary_from_string_representation(text, is_implemented=True)
    else:
        sp = [A.make_aggregator_spec_adj_lines_merge, A.make_aggregator_spec_adj_lines_seq,
              A.make_aggregator_spec_custom_2_ary_from_cmd_inv_with_transformers, A.make_aggregator_spec_custom_n_ary_from_cmd_inv_with_transformers,
              A.make_aggregator_spec_adj_lines_func_from_cmd_inv_with_transformers,
              lambda: A.make_aggregator_spec_custom_2_ary_from_string_representation('x'),
              lambda: A.make_aggregator_spec_custom_n_ary_from_string_representation('x'),
              lambda: A.make_aggregator_spec_adj_lines_func_from_string_representation('PLACE_HOLDER')][E.choose('which', 8)]()
        name = None
    par = make_parallelizer_consec_chunks(aggregator_spec=sp)
    before, pb = copy.deepcopy(vars(r.inv)), copy.deepcopy(vars(par))
    first = None
    for k in (0, 1):
        ins = inputs(E, r, n, 4) if k == 0 else list(range(10, 10 + n))
        out = E.pick('out', list(range(5))) if k == 0 else 20
        L.notin(E, out, ins)
        given = list(ins)
        res = E.call(par.get_actual_aggregator, r.inv, given, out)
        E.check(E.same(given, ins), "the caller's list changed")
        E.check(E.same(vars(r.inv), before), 'the original invocation changed')
        E.check(E.same(vars(par), pb), 'the parallelizer changed')
        if name is None:
            E.reach('unimplemented')
            E.check(res.ok and res.value is None, 'an unimplemented aggregator is not nothing')
            E.check(E.neg(par.are_all_parts_implemented()), 'claims to be implemented')
            return
        E.check(par.are_all_parts_implemented(), 'claims to be unimplemented')
        if kind == 'str2' and n != 2:
            E.reach('refused')
            E.check(not res.ok, 'a wrong number of inputs is accepted')
            return
        E.check(res.ok and res.value is not None, 'no aggregator')
        if not res.ok or res.value is None:
            return
        E.observe('agg', res.value)
        if first is not None:
            E.reach('second')
            agg(E, *first)
        first = (res.value, name, [('F', f, None) for f in flags], ins, out)
        agg(E, *first)
        # giving away the list must not give away the aggregator
        given.append(99)
        agg(E, *first)
        E.check(E.eq(res.value.is_aggregator_concatenate(), kind == 'conc'), 'claims about being a concatenation')
        E.reach('concatenate' if kind == 'conc' else 'string')
        if n == 4:
            E.reach('four inputs')
        if n == 0:
            E.reach('no input')


def agg(E, a, name, fo, ins, out):
    E.check(E.eq(a.cmd_name, name), 'command name')
    L.same_layout(E, a, (fo, [('V', i) for i in ins], None, out), 'aggregator')
    for i in ins:
        L.access_is(E, a, i, 'STREAM_INPUT', 'input')
    L.access_is(E, a, out, 'STREAM_OUTPUT', 'output')


def transformed(E, p):
    from pash_annotations.annotation_generation.datatypes.parallelizability import AggregatorSpec as A
    from pash_annotations.annotation_generation.datatypes.parallelizability import TransformerFlagOptionList as T
    from pash_annotations.annotation_generation.datatypes.parallelizability.Parallelizer import make_parallelizer_consec_chunks
    from pash_annotations.datatypes.BasicDatatypes import Flag
    import copy
    kind, n = p['kind'], p['n']
    r = L.build(E, p['shapes'][E.choose('shape', len(p['shapes']))], names=['-a', '-b'])
    t = E.choose('t', 3)
    tr = [None, T.ChainTransformerFlagOptionList([T.make_transformer_filter(['-a']), T.make_transformer_add([Flag('-m')])]), T.make_transformer_empty()][t]
    fo = [r.fo, [x for x in r.fo if E.eq(x[1], '-a')] + [('F', '-m', None)], []][t] if t != 1 else \
        [x for x in r.fo if E.eq(x[1], '-a')] + [('F', '-m', None)]
    sp = {'tr1': A.make_aggregator_spec_adj_lines_func_from_cmd_inv_with_transformers,
          'tr2': A.make_aggregator_spec_custom_2_ary_from_cmd_inv_with_transformers,
          'trn': A.make_aggregator_spec_custom_n_ary_from_cmd_inv_with_transformers}[kind](flag_option_list_transformer=tr, is_implemented=True)
    dropped = []
    # the stream is written to the implicit output or an operand; everything else in the options stays
    for x in r.fo:
        if x[0] == 'V':
            E.assume(E.neg(L.is_kind(E, r, x[2], 'STREAM_OUTPUT')))
    if r.iin is not None:
        E.assume(L.is_kind(E, r, r.iin, 'STREAM_INPUT'))
    kept = [x[2] for x in fo if x[0] == 'V']
    for x in r.fo:
        # an identifier of an option that the transformer drops is not given again
        if x[0] == 'V' and x[2] not in kept:
            kept_elsewhere = [y[1] for y in r.ops if y[0] == 'V'] + [r.iin]
            if x[2] not in kept_elsewhere:
                dropped.append(x[2])
    fo = [x for x in fo if x[0] != 'V' or not L.is_kind(E, r, x[2], 'STREAM_INPUT')]
    hi = len(r.pool) + 2
    ins = inputs(E, r, n, hi)
    out = E.pick('out', list(range(hi)))
    L.notin(E, out, ins)
    for i in range(n):
        L.notin(E, ins[i], ins[:i] + dropped)
        for v in r.pool:
            E.assume(E.neg(E.all([E.eq(ins[i], v), E.neg(L.is_kind(E, r, v, 'STREAM_INPUT'))])))
    for v in r.pool:
        E.assume(E.neg(E.all([E.eq(out, v), E.neg(L.is_kind(E, r, v, 'STREAM_INPUT', 'STREAM_OUTPUT'))])))
    par = make_parallelizer_consec_chunks(aggregator_spec=sp)
    before, pb, given = copy.deepcopy(vars(r.inv)), copy.deepcopy(vars(par)), list(ins)
    res = E.call(par.get_actual_aggregator, r.inv, given, out)
    E.check(E.same(given, ins), "the caller's list changed")
    E.check(E.same(vars(r.inv), before), 'the original invocation changed')
    E.check(E.same(vars(par), pb), 'the parallelizer changed')
    if (kind == 'tr1' and n != 1) or (kind == 'tr2' and n != 2):
        E.reach('refused')
        E.check(not res.ok, 'a wrong number of inputs is accepted')
        return
    E.check(res.ok and res.value is not None, 'no aggregator')
    if not res.ok or res.value is None:
        return
    E.reach('transformed')
    E.observe('agg', res.value)
    agg(E, res.value, r.cmd, fo, ins, out)
    given.append(99)
    agg(E, res.value, r.cmd, fo, ins, out)
    for x in fo:
        if x[0] == 'V':
            L.access_is(E, res.value, x[2], L.kind(E, r, x[2]), 'kept option')
