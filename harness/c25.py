"""C25: flag/option list transformers do what they say."""
from harness.items import flagopts

LEVEL = 'model_checking'
EXPECT_TAGS = ['seq', 'empty', 'filter', 'remove', 'add', 'custom', 'chain', 'added', 'not added', 'kept', 'dropped', 'any names']
ASSUMPTIONS = ['apart from the lists with any names, names range over three symbolic values']
BOUNDS = {'quick': 'lists of up to 3 entries (flag, option with text, option with identifier; symbolic names and arguments); lists of '
                   'names or entries to filter, remove or give of up to 2 (entries to add up to 3); chains of up to 2 transformers; filter, remove and add over two entries and two names, each any text of length <=3 or one of six',
          'thorough': 'original lists of up to 4, parameter lists of up to 3, chains of up to 3'}
NAMES = ['-a', '-b', '--cc']


def tasks(tier):
    t = tier == 'thorough'
    out = []
    for k in ('seq', 'empty', 'filter', 'remove', 'add', 'custom'):
        out.append(dict(fn='single', params=dict(kind=k, n=4 if t else 3, m=3 if t else 2), cost=20 if k == 'add' else 2))
    out.append(dict(fn='single', params=dict(kind='add', n=2, m=4 if t else 3), cost=30))
    for k in ('filter', 'remove', 'add'):
        out.append(dict(fn='anynames', params=dict(kind=k), cost=5))
    for a in ('filter', 'remove', 'add', 'custom', 'seq', 'empty'):
        out.append(dict(fn='chain', params=dict(first=a, k=3 if t else 2), cost=10))
    return out


def make(E, kind, m, tag):
    """(transformer, its parameter, reference function)"""
    from pash_annotations.annotation_generation.datatypes.parallelizability import TransformerFlagOptionList as T
    E.reach(kind)
    if kind == 'seq':
        return T.make_transformer_same_as_seq(), [], lambda E, l: list(l)
    if kind == 'empty':
        return T.make_transformer_empty(), [], lambda E, l: []
    if kind in ('filter', 'remove'):
        n = E.choose(tag + '.m', m + 1)
        names = [E.pick('%s.f%d' % (tag, i), NAMES) for i in range(n)]
        if kind == 'filter':
            return T.make_transformer_filter(names), names, lambda E, l: ref_filter(E, l, names, True)
        return T.make_transformer_remove(names), names, lambda E, l: ref_filter(E, l, names, False)
    items = flagopts(E, tag + '.i', m, NAMES, [1, 2])
    if kind == 'add':
        return T.make_transformer_add(items), items, lambda E, l: ref_add(E, l, items)
    return T.make_transformer_custom(items), items, lambda E, l: list(items)


def ref_filter(E, l, names, keep):
    out = []
    for x in l:
        listed = E.any([E.eq(x.get_name(), n) for n in names])
        if listed:
            E.reach('kept' if keep else 'dropped')
            if keep:
                out.append(x)
        else:
            E.reach('dropped' if keep else 'kept')
            if not keep:
                out.append(x)
    return out


def ref_add(E, l, items):
    out = list(l)
    for x in items:
        if E.any([E.same(x, y) for y in out]):
            E.reach('not added')
        else:
            E.reach('added')
            out.append(x)
    return out


def apply(E, t, l):
    return E.call(t.get_flag_option_list_after_transformer_application, l)


def check(E, t, param, ref, l, what):
    import copy
    before, tb, pb = copy.deepcopy(l), copy.deepcopy(t), copy.deepcopy(param)
    want = ref(E, l)
    r = apply(E, t, l)
    E.check(r.ok, what + ' raised')
    if not r.ok:
        return
    E.observe('r', r.value)
    E.check(isinstance(r.value, list), what + ': not a list')
    E.check(E.same(r.value, want), what + ': wrong entries')
    E.check(E.same(l, before), what + ' modified the original list')
    E.check(E.same(t, tb) and E.same(param, pb), what + ' modified the transformer')
    r2 = apply(E, t, l)
    E.check(r2.ok and E.same(r2.value, want), what + ': second application differs')


def single(E, p):
    l = flagopts(E, 'l', p['n'] if p['kind'] != 'add' else p['n'] - 1, NAMES, [1, 2])
    t, param, ref = make(E, p['kind'], p['m'], 't')
    check(E, t, param, ref, l, p['kind'])


def anynames(E, p):
    """Entries and listed names are any texts, also parts of each other."""
    from pash_annotations.annotation_generation.datatypes.parallelizability import TransformerFlagOptionList as T
    from pash_annotations.datatypes.BasicDatatypes import Flag, ArgStringType
    from pash_annotations.datatypes.BasicDatatypesWithIOVar import OptionWithIOVar
    kind = p['kind']
    vocab = ['-a', '-ab', '--ab', '--ab=c', 'a', '-']
    l = [Flag(E.word('l0', vocab, (0, 1, 2))), OptionWithIOVar(E.word('l1', vocab, (2, 3)), ArgStringType(E.word('l2', vocab, (1,))))][:E.choose('n', 3)]
    names = [E.word('n0', vocab, (0, 1, 2)), E.word('n1', vocab, (2, 3))][:E.choose('m', 3)]
    E.reach('any names')
    if kind == 'filter':
        t, ref = T.make_transformer_filter(names), lambda E, l: ref_filter(E, l, names, True)
    elif kind == 'remove':
        t, ref = T.make_transformer_remove(names), lambda E, l: ref_filter(E, l, names, False)
    else:
        names = [Flag(n) for n in names] + [OptionWithIOVar(n, ArgStringType('-ab')) for n in names[1:]]
        t, ref = T.make_transformer_add(names), lambda E, l: ref_add(E, l, names)
    check(E, t, names, ref, l, kind)


def chain(E, p):
    from pash_annotations.annotation_generation.datatypes.parallelizability.TransformerFlagOptionList import ChainTransformerFlagOptionList
    from pash_annotations.datatypes.BasicDatatypes import Flag, ArgStringType
    from pash_annotations.datatypes.BasicDatatypesWithIOVar import OptionWithIOVar
    l = [Flag(E.pick('l0', NAMES)), OptionWithIOVar(E.pick('l1', NAMES), E.pick('v1', [1, 2]))]
    l = l[:E.choose('l.n', 3)]
    kinds = ['filter', 'remove', 'add', 'custom', 'seq', 'empty']
    k = E.choose('k', p['k'] + 1)
    ts, refs, params = [], [], []
    for i in range(k):
        kind = p['first'] if i == 0 else kinds[E.choose('kind%d' % i, len(kinds))]
        t, param, ref = make(E, kind, 1, 't%d' % i)
        ts.append(t)
        refs.append(ref)
        params.append(param)
    E.reach('chain')

    def ref_all(E, l):
        for r in refs:
            l = r(E, l)
        return list(l)
    check(E, ChainTransformerFlagOptionList(ts), params, ref_all, l, 'chain')
