"""C19: round robin only where order can be restored."""
LEVEL = 'model_checking'
EXPECT_TAGS = ['refused', 'built', 'commutative', 'not commutative', 'inferred', 'again', 'command', 'appended']
ASSUMPTIONS = ['the order of the offered parallelizers is not constrained']
BOUNDS = {'quick': 'all splitters, all six aggregator kinds, implemented or not; lists of up to 3 parallelizers with symbolic aggregator kind, mapper '
                   'and auxiliary count, both commutativity values, up to 3 queries; sort, cut, uniq and set_diff end to end',
          'thorough': 'lists of up to 4'}
SPL = ['INDIV_FILES', 'ROUND_ROBIN_PLAIN', 'ROUND_ROBIN_UNWRAP_FLAG', 'CONSEC_CHUNKS']
AGG = ['CONCATENATE', 'ADJ_LINES_MERGE', 'ADJ_LINES_SEQ', 'ADJ_LINES_FUNC', 'CUSTOM_2_ARY', 'CUSTOM_N_ARY']


def tasks(tier):
    n = 3 if tier == 'quick' else 4
    return [dict(fn='construct', params=dict(agg=a)) for a in range(6)] + [dict(fn='factories', params={})] + \
        [dict(fn='inferred', params=dict(n=k), cost=10 ** k) for k in range(n + 1)] + [dict(fn='commands', params={})]


def aggspec(E, name, k):
    from pash_annotations.annotation_generation.datatypes.parallelizability import AggregatorSpec as A
    from pash_annotations.annotation_generation.datatypes.parallelizability.AggregatorKind import AggregatorKindEnum
    imp = E.boolean(name + '.imp')
    if k < 3:
        return A.AggregatorSpecNonFunc(getattr(AggregatorKindEnum, AGG[k]), imp)
    kind = getattr(AggregatorKindEnum, AGG[k])
    if E.choose(name + '.cls', 2):
        return A.AggregatorSpecFuncTransformer(kind, None, imp)
    return A.AggregatorSpecFuncStringRepresentation(kind, E.pick(name + '.cmd', ['x', 'y -z']), imp)


def mapspec(E, name):
    from pash_annotations.annotation_generation.datatypes.parallelizability import MapperSpec as M
    return M.make_mapper_spec_custom(E.pick(name + '.cmd', ['p', 'q']), is_implemented=E.boolean(name + '.imp'))


def construct(E, p):
    from pash_annotations.annotation_generation.datatypes.parallelizability.Parallelizer import Parallelizer
    from pash_annotations.annotation_generation.datatypes.parallelizability.Splitter import Splitter, SplitterKindEnum
    s = E.choose('s', 4)
    r = E.call(Parallelizer, Splitter(getattr(SplitterKindEnum, SPL[s])), mapspec(E, 'm'), aggspec(E, 'a', p['agg']), None, E.pick('aux', [0, 1, 2]))
    refused = s == 1 and p['agg'] > 3
    E.reach('refused' if refused else 'built')
    E.check(r.ok != refused, 'a round-robin parallelizer that cannot restore order' if refused else 'a legitimate parallelizer is refused')
    if r.ok:
        sp = r.value.get_splitter()
        E.check([sp.is_splitter_round_robin(), sp.is_splitter_round_robin_with_unwrap_flag(), sp.is_splitter_consec_chunks()] == [s == 1, s == 2, s == 3],
                'splitter queries')


def factories(E, p):
    from pash_annotations.annotation_generation.datatypes.parallelizability import Parallelizer as P
    k = E.choose('agg', 7)
    a = None if k == 6 else aggspec(E, 'a', k)
    f = E.choose('f', 3)
    m = [None, mapspec(E, 'm')][E.choose('m', 2)]
    r = E.call([P.make_parallelizer_round_robin, P.make_parallelizer_indiv_files, P.make_parallelizer_consec_chunks][f], m, a)
    refused = f == 0 and k in (4, 5)
    E.check(r.ok != refused, 'factory')
    if r.ok:
        sp = r.value.get_splitter()
        E.check([sp.is_splitter_round_robin(), sp.is_splitter_consec_chunks()] == [f == 0, f == 2], 'factory gives another splitter')
        if a is not None:
            E.check(E.same(r.value.get_aggregator_spec(), a), 'another aggregator')
        else:
            E.check(r.value.get_aggregator_spec().is_aggregator_spec_concatenate() and r.value.get_aggregator_spec().is_implemented, 'default aggregator')
        if m is not None:
            E.check(E.same(r.value.get_mapper_spec(), m), 'another mapper')


def parts(par):
    return [par.core_mapper_spec, par.core_aggregator_spec, par.info_splitter_mapper, par.info_mapper_aggregator]


def inferred(E, p):
    from pash_annotations.annotation_generation.datatypes.ParallelizabilityInfo import ParallelizabilityInfo
    from pash_annotations.annotation_generation.datatypes.parallelizability import Parallelizer as P
    import copy
    ps = []
    for i in range(p['n']):
        s = E.choose('s%d' % i, 3)
        n = 'p%d' % i
        if s == 0:
            from pash_annotations.annotation_generation.datatypes.parallelizability import AggregatorSpec as A
            x = P.make_parallelizer_consec_chunks(mapspec(E, n + 'm'), A.make_aggregator_spec_custom_2_ary_from_string_representation(
                E.pick(n + 'agg', ['x', 'y']), E.boolean(n + 'imp')), info_mapper_aggregator=E.pick(n + 'aux', [0, 1, 2]))
        elif s == 1:
            x = P.make_parallelizer_round_robin(mapspec(E, n + 'm'))
        else:
            x = P.make_parallelizer_indiv_files(mapspec(E, n + 'm'))
        ps.append((s, x))
    com = E.choose('com', 2)
    how = E.choose('how', 2)
    if how:
        info = ParallelizabilityInfo([x for s, x in ps], False, bool(com))
    else:
        info = ParallelizabilityInfo()
        for s, x in ps:
            info.append_to_parallelizer_list(x)
        if com:
            info.set_commutative()
        E.reach('appended')
    E.reach('commutative' if com else 'not commutative')
    before = copy.deepcopy(vars(info))
    check(E, info, ps, com, 'first query')
    E.check(E.same(vars(info), before), 'a query changed the information')
    # what the caller does with the answer does not matter
    got = info.get_inferred_parallelizer_list()
    got.append(None)
    E.reach('again')
    check(E, info, ps, com, 'second query')
    u = info.unpack_info()
    E.check(len(u) == 3 and E.same(u[0], info.get_inferred_parallelizer_list()) and E.eq(u[2], bool(com)), 'unpacked information')
    other = ParallelizabilityInfo()
    E.check(len(other.get_inferred_parallelizer_list()) == 0, 'fresh information is not empty')


def check(E, info, ps, com, what):
    got = info.get_inferred_parallelizer_list()
    E.observe('n', len(got))
    want = [(x.splitter, x) for s, x in ps]
    un = []
    if com:
        un = [x for s, x in ps if s == 0]
        if un:
            E.reach('inferred')
    E.check(len(got) == len(ps) + len(un), what + ': number')
    rest = list(got)
    for s, x in ps:
        i = find(rest, lambda y: y is x)
        if i is None:
            i = find(rest, lambda y: E.same(y, x))
        E.check(i is not None, what + ': a given parallelizer is missing')
        if i is not None:
            rest.pop(i)
    for x in un:
        i = find(rest, lambda y: y.splitter.is_splitter_round_robin_with_unwrap_flag() and E.same(parts(y), parts(x)))
        E.check(i is not None, what + ': no round robin with unwrap for a consecutive-chunk parallelizer')
        if i is not None:
            rest.pop(i)
    E.check(len(rest) == 0, what + ': something else is offered')


def find(l, f):
    for i, y in enumerate(l):
        if f(y):
            return i
    return None


def commands(E, p):
    from pash_annotations.parser.parser import parse
    from pash_annotations.annotation_generation.AnnotationGeneration import get_parallelizability_info_from_cmd_invocation as para
    words = E.pick('w', ['sort', 'cut', 'uniq', 'set_diff', 'grep', 'tr', 'custom_sort', 'alt_bigrams_aux', 'xargs', 'test_one', 'cat'])
    opts = {'sort': '-r', 'cut': '-s', 'uniq': '-i', 'set_diff': 'f', 'grep': '-v', 'tr': '-t', 'custom_sort': 'f', 'alt_bigrams_aux': 'x', 'xargs': '-t',
            'test_one': 'x', 'cat': '-n'}
    for w in opts:
        if E.eq(words, w):
            inv = parse(E.command([w, opts[w]] + (['x', 'y'] if E.choose('more', 2) else [])))
            r = E.call(para, inv)
            E.check(r.ok and r.value is not None or w == 'cat', 'no information')
            if not (r.ok and r.value is not None):
                return
            info = r.value
            base = info.parallelizer_list
            E.reach('command')
            ps = [(0 if x.splitter.is_splitter_consec_chunks() else 1, x) for x in list(base)]
            check(E, info, ps, 1 if info.is_commutative else 0, 'first query')
            check(E, info, ps, 1 if info.is_commutative else 0, 'second query')
