"""C22: auxiliary pipes are wired in the agreed order."""
from harness import iovlib as L

LEVEL = 'model_checking'
EXPECT_TAGS = ['mapper', 'refused', 'no auxiliary', 'two auxiliaries', 'aggregator', 'unequal', 'bigrams mapper', 'bigrams aggregator', 'bigrams alternative',
               'not from a string']
ASSUMPTIONS = ['the given identifiers are distinct and none stays in the invocation in another role',
               'with auxiliaries all operands of the invocation are distinct identifiers (there is no agreed place for anything else)',
               'identifiers are only compared, so their equality pattern and which of them is 0 stand for all values']
BOUNDS = {'quick': 'up to 3 auxiliary pipes declared and given; invocations with up to 2 flags and options and 2 operands; arbitrary identifiers',
          'thorough': 'up to 4 auxiliary pipes, up to 3 operands'}


def tasks(tier):
    q = tier == 'quick'
    out = []
    sh = [s for s in L.quick_shapes(2 if q else 3) if 'S' not in s[1]]
    for k in range(0, 4 if q else 5):
        out += L.chunked('mapper', sh, 3 if q else 6, n=k)
    for k in range(0, 4 if q else 5):
        out.append(dict(fn='aggregator', params=dict(n=k), cost=10))
    out += [dict(fn='bigrams', params={}, cost=10), dict(fn='others', params={}, cost=10)]
    return out


def distinct(E, names, hi):
    out = []
    for n in names:
        v = E.pick(n, list(range(hi)))
        L.notin(E, v, out)
        out.append(v)
    return out


def mapper(E, p):
    from pash_annotations.annotation_generation.datatypes.parallelizability import MapperSpec as M
    from pash_annotations.annotation_generation.datatypes.parallelizability.Parallelizer import make_parallelizer_consec_chunks
    import copy
    n = p['n']
    shape = p['shapes'][E.choose('shape', len(p['shapes']))]
    r = L.build(E, shape, kinds=L.KINDS[:4], ids=list(range(L.nvars(shape))))
    seq = E.choose('seq', 2)
    sp = M.make_mapper_spec_seq() if seq else M.make_mapper_spec_custom_from_string_representation('grep -v -i', is_implemented=True)
    name, fo = (r.cmd, r.fo) if seq else ('grep', [('F', '-v', None), ('F', '-i', None)])
    par = make_parallelizer_consec_chunks(mapper_spec=sp, info_mapper_aggregator=n)
    E.check(E.eq(par.get_info_mapper_aggregator(), n), 'declared number')
    k = n + [0, 1, -1][E.choose('delta', 3)]
    E.assume(k >= 0)
    kept = [x[2] for x in fo if x[0] == 'V']
    if n == 0 and k == 0:
        # as C20: one streaming input and output
        r.slots = L.vars_of(fo, r.ops, r.iin, r.iout)
        E.assume(L.number(E, r, 'STREAM_INPUT') == 1 and L.number(E, r, 'STREAM_OUTPUT') == 1)
        new = [7, 8]
        E.reach('no auxiliary')
    else:
        new = distinct(E, ['in', 'out'] + ['aux%d' % i for i in range(k)], k + 3)
        for v in new:
            L.notin(E, v, kept)
    aux = new[2:]
    before, pb, given = copy.deepcopy(vars(r.inv)), copy.deepcopy(vars(par)), list(aux)
    res = E.call(par.get_actual_mapper, r.inv, new[0], new[1], given)
    E.check(E.same(given, aux), "the caller's list changed")
    E.check(E.same(vars(r.inv), before), 'the original invocation changed')
    E.check(E.same(vars(par), pb), 'the parallelizer changed')
    if k != n:
        E.reach('refused')
        E.check(not res.ok, 'a wrong number of auxiliary outputs is accepted')
        return
    E.check(res.ok and res.value is not None, 'no mapper')
    if not res.ok or res.value is None:
        return
    m = res.value
    E.observe('m', m)
    E.check(E.eq(m.cmd_name, name), 'command name')
    if n == 0:
        want = L.substituted(E, _with(r, fo), [new[0]], [new[1]])
        if want is not None:
            L.same_layout(E, m, want[0], 'mapper')
        return
    E.reach('mapper')
    if n == 2:
        E.reach('two auxiliaries')
    L.same_layout(E, m, (fo, [('V', v) for v in new], None, None), 'mapper')
    L.access_is(E, m, new[0], 'STREAM_INPUT', 'input')
    for v in new[1:]:
        L.access_is(E, m, v, 'STREAM_OUTPUT', 'output')
    for v in kept:
        L.access_is(E, m, v, L.kind(E, r, v), 'kept option')
    given.append(99)
    L.same_layout(E, m, (fo, [('V', v) for v in new], None, None), "mapper after the caller's list changed")


def _with(r, fo):
    r.fo = fo
    return r


def wired(E, a, name, fo, ins, outs):
    E.check(E.eq(a.cmd_name, name), 'command name')
    L.same_layout(E, a, (fo, [('V', v) for v in ins + outs], None, None), 'aggregator')
    for v in ins:
        L.access_is(E, a, v, 'STREAM_INPUT', 'input')
    for v in outs:
        L.access_is(E, a, v, 'STREAM_OUTPUT', 'output')


def aggregator(E, p):
    from pash_annotations.annotation_generation.datatypes.parallelizability import AggregatorSpec as A
    from pash_annotations.annotation_generation.datatypes.parallelizability.Parallelizer import make_parallelizer_consec_chunks
    n = p['n']
    sp = A.make_aggregator_spec_custom_2_ary_from_string_representation('uniq -c -d', is_implemented=True)
    par = make_parallelizer_consec_chunks(aggregator_spec=sp, info_mapper_aggregator=n)
    ns = [n + [0, 1, -1][E.choose('d%d' % i, 3)] for i in range(3)] if n else [E.choose('d%d' % i, 2) for i in range(3)]
    E.assume(ns[0] != ns[1] or ns[0] != ns[2] or ns[0] == n)
    total = 3 + sum(ns)
    # identifiers are distinct: symbolic up to a rotation
    rot = E.choose('rot', 2)
    ids = list(range(total)) if not rot else list(range(total - 1, -1, -1))
    fst, fa = ids[0], ids[1:1 + ns[0]]
    ids = ids[1 + ns[0]:]
    snd, sa = ids[0], ids[1:1 + ns[1]]
    ids = ids[1 + ns[1]:]
    out, oa = E.pick('out', [ids[0], 50]), ids[1:]
    args = [list(fa), list(sa), list(oa)]
    res = E.call(par.get_actual_2_ary_aggregator_with_aux, fst, fa, snd, sa, out, oa)
    E.check(E.same([fa, sa, oa], args), "the caller's lists changed")
    if len(set(ns)) > 1:
        E.reach('unequal')
        E.check(not res.ok, 'unequal numbers of auxiliaries are accepted')
        return
    E.check(res.ok, 'making the aggregator raised')
    if not res.ok:
        return
    E.reach('aggregator')
    E.observe('agg', res.value)
    wired(E, res.value, 'uniq', [('F', '-c', None), ('F', '-d', None)], [fst] + fa + [snd] + sa, [out] + oa)


def bigrams(E, p):
    """The bigram commands, from the parsed invocation to mapper and aggregator."""
    from pash_annotations.parser.parser import parse
    from pash_annotations.annotation_generation.AnnotationGeneration import get_parallelizability_info_from_cmd_invocation as para
    from pash_annotations.datatypes.CommandInvocationWithIOVars import CommandInvocationWithIOVars
    from pash_annotations.datatypes.AccessKind import make_stream_input, make_stream_output
    alt = E.choose('alt', 2)
    name = 'alt_bigrams_aux' if alt else 'bigrams_aux'
    r = E.call(para, parse(E.command([name])))
    E.check(r.ok and r.value is not None and len(r.value.parallelizer_list) == 1, 'not one parallelizer')
    if not (r.ok and r.value is not None and len(r.value.parallelizer_list) == 1):
        return
    par = r.value.parallelizer_list[0]
    i, o = distinct(E, ['i', 'o'], 3)
    inv = CommandInvocationWithIOVars(name, [], [], i, o, {i: make_stream_input(), o: make_stream_output()})
    n = 0 if alt else 2
    E.check(E.eq(par.get_info_mapper_aggregator(), n), 'declared number of auxiliaries')
    new = distinct(E, ['in', 'out', 'aux0', 'aux1'][:2 + n], 5)
    if alt:
        L.notin(E, new[0], [o])
    m = E.call(par.get_actual_mapper, inv, new[0], new[1], new[2:])
    E.check(m.ok and m.value is not None, 'no mapper')
    if not (m.ok and m.value is not None):
        return
    E.observe('m', m.value)
    if alt:
        E.reach('bigrams alternative')
        E.check(E.eq(m.value.cmd_name, 'alt_bigrams_aux'), 'mapper command')
        L.same_layout(E, m.value, ([], [], new[0], new[1]), 'mapper')
        a = E.call(par.get_actual_aggregator, inv, [5, 6], 7)
        E.check(a.ok and a.value is not None, 'no aggregator')
        if a.ok and a.value is not None:
            E.check(E.eq(a.value.cmd_name, 'alt_bigram_aux_reduce'), 'aggregator command')
            L.same_layout(E, a.value, ([], [('V', 5), ('V', 6)], None, 7), 'aggregator')
        return
    E.reach('bigrams mapper')
    E.check(E.eq(m.value.cmd_name, 'bigram_aux_map'), 'mapper command')
    L.same_layout(E, m.value, ([], [('V', v) for v in new], None, None), 'mapper')
    L.access_is(E, m.value, new[0], 'STREAM_INPUT', 'input')
    for v in new[1:]:
        L.access_is(E, m.value, v, 'STREAM_OUTPUT', 'output')
    ids = distinct(E, ['a%d' % k for k in range(3)], 4) + [10, 11, 12, 0 + 20, 21, 22]
    a = E.call(par.get_actual_2_ary_aggregator_with_aux, ids[0], [ids[1], ids[2]], ids[3], [ids[4], ids[5]], ids[6], [ids[7], ids[8]])
    E.check(a.ok, 'making the aggregator raised')
    if a.ok:
        E.reach('bigrams aggregator')
        wired(E, a.value, 'bigram_aux_reduce', [], ids[:6], ids[6:])


def others(E, p):
    """Only aggregators given as a string take auxiliaries."""
    from pash_annotations.annotation_generation.datatypes.parallelizability import AggregatorSpec as A
    sp = [A.make_aggregator_spec_concatenate, A.make_aggregator_spec_adj_lines_merge, A.make_aggregator_spec_adj_lines_seq,
          lambda: A.make_aggregator_spec_custom_2_ary_from_cmd_inv_with_transformers(is_implemented=True),
          lambda: A.make_aggregator_spec_custom_n_ary_from_cmd_inv_with_transformers(is_implemented=True)][E.choose('which', 5)]()
    n = E.choose('n', 3)
    res = E.call(sp.get_actual_2_ary_aggregator_with_aux, 1, [2] * n, 3, [4] * n, 5, [6] * n)
    E.reach('not from a string')
    E.check(not res.ok, 'auxiliaries accepted')
