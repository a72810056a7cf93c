"""C27: equality of invocations and annotation parts is by value."""
LEVEL = 'model_checking'
EXPECT_TAGS = ['equal', 'unequal', 'other kind', 'copy changed']
ASSUMPTIONS = ['identifiers, texts and enumeration members are the leaves; values that are no documented kind of the package are not compared']
BOUNDS = {'quick': 'every kind of value with every component symbolic (texts of length <=2 over all codes, two to four identifiers or members); lists '
                   'of up to 2; all pairs of different kinds with the same components; every attribute of a deep copy changed',
          'thorough': 'texts of length <=4, lists of up to 3'}


def kinds():
    """name -> maker(E, prefix, size): a value with symbolic components."""
    from pash_annotations.datatypes import BasicDatatypes as B, BasicDatatypesWithIO as W, BasicDatatypesWithIOVar as V
    from pash_annotations.datatypes.AccessKind import AccessKind, AccessKindEnum
    from pash_annotations.datatypes.CommandInvocationInitial import CommandInvocationInitial
    from pash_annotations.datatypes.CommandInvocationWithIO import CommandInvocationWithIO
    from pash_annotations.datatypes.CommandInvocationWithIOVars import CommandInvocationWithIOVars
    from pash_annotations.annotation_generation.datatypes.parallelizability import TransformerFlagOptionList as T
    from pash_annotations.annotation_generation.datatypes.parallelizability import MapperSpec as M, AggregatorSpec as A, Parallelizer as P
    from pash_annotations.annotation_generation.datatypes.parallelizability.AggregatorKind import AggregatorKindEnum as AK
    from pash_annotations.annotation_generation.datatypes.parallelizability.Mapper import Mapper
    from pash_annotations.annotation_generation.datatypes.parallelizability.Aggregator import Aggregator
    from pash_annotations.annotation_generation.datatypes.parallelizability.Splitter import Splitter, SplitterKindEnum

    def text(E, n, size):
        return E.word(n, ['-x'], range(0, size + 1))

    def short(E, n, size):
        return E.pick(n, ['', '-x', 'y'][:size + 1])

    def acc(E, n):
        return AccessKind(E.pick(n, [AccessKindEnum.STREAM_INPUT, AccessKindEnum.OTHER_INPUT, AccessKindEnum.STREAM_OUTPUT]))

    def std(E, n):
        return E.pick(n, [B.StdDescriptorEnum.STDIN, B.StdDescriptorEnum.STDOUT, B.StdDescriptorEnum.STDERR])

    def flag(E, n):
        return [B.Flag(short(E, n, 2)), B.Option('-x', short(E, n, 2))][E.choose(n + '.k', 2)]

    def lst(E, n, f, size):
        return [f(E, '%s%d' % (n, i)) for i in range(E.choose(n + '.n', min(size, 2) + 1))]

    def ioarg(E, n):
        k = E.choose(n + '.k', 3)
        if k == 0:
            return B.ArgStringType(short(E, n, 2))
        if k == 1:
            return W.FileNameWithIOInfo(short(E, n, 2), acc(E, n + '.a'))
        return W.StdDescriptorWithIOInfo(std(E, n), acc(E, n + '.a'))

    def var(E, n):
        return [B.ArgStringType(short(E, n, 2)), E.pick(n, [0, 1, 2])][E.choose(n + '.k', 2)]

    def opt(E, n, v):
        return [None, v][E.choose(n + '.o', 2)]

    def withvars(cls, *first):
        def f(E, n, s):
            a = E.pick(n + 'a', [0, 1])
            return cls(*([x(E, n) for x in first] + [short(E, n + 'c', 2), [V.OptionWithIOVar('-o', var(E, n + 'f'))][:1 + E.choose(n + 'f.n', 1)],
                       [var(E, n + 'p')][:E.choose(n + 'p.n', 2)], opt(E, n + 'i', a), opt(E, n + 'o', E.pick(n + 'b', [0, 1])), {0: acc(E, n + 'm')}]))
        return f
    agk = lambda E, n: E.pick(n + 'k', [AK.CONCATENATE, AK.CUSTOM_2_ARY])
    names = lambda E, n: lst(E, n, lambda E, m: short(E, m, 2), 2)
    flags = lambda E, n: lst(E, n, flag, 2)

    def spec_m(E, n, s=1):
        if E.choose(n + '.k', 2):
            return M.MapperSpec(M.MapperSpecKindEnum.CUSTOM, opt(E, n, short(E, n + 'c', 1)), T.make_transformer_filter(names(E, n + 'f')), E.boolean(n + 'i'))
        return M.MapperSpec(M.MapperSpecKindEnum.SAME_AS_SEQ, None, None, E.boolean(n + 'i'))

    def spec_a(E, n, s=1):
        k = E.choose(n + '.k', 3)
        if k == 0:
            return A.AggregatorSpecNonFunc(E.pick(n + 'e', [AK.CONCATENATE, AK.ADJ_LINES_MERGE, AK.ADJ_LINES_SEQ]), E.boolean(n + 'i'))
        e = E.pick(n + 'e', [AK.CUSTOM_2_ARY, AK.CUSTOM_N_ARY])
        if k == 1:
            return A.AggregatorSpecFuncStringRepresentation(e, short(E, n + 'c', 2), E.boolean(n + 'i'))
        return A.AggregatorSpecFuncTransformer(e, T.make_transformer_filter([short(E, n + 'c', 1)]), E.boolean(n + 'i'))

    def para(E, n, s):
        I = P.AdditionalInfoSplitterToMapper
        return P.Parallelizer(Splitter(E.pick(n + 's', [SplitterKindEnum.INDIV_FILES, SplitterKindEnum.CONSEC_CHUNKS])),
                              M.make_mapper_spec_custom(short(E, n + 'c', 1), is_implemented=E.boolean(n + 'mi')),
                              A.make_aggregator_spec_custom_2_ary_from_string_representation(short(E, n + 'g', 1), E.boolean(n + 'gi')),
                              E.pick(n + 'x', [None, I.LINE_NUM_OFFSET, I.NO_ADD_INPUT]), E.pick(n + 'y', [0, 1, 2]))

    return {
        'FileName': lambda E, n, s: B.FileName(text(E, n, s)),
        'ArgStringType': lambda E, n, s: B.ArgStringType(text(E, n, s)),
        'Operand': lambda E, n, s: B.Operand(text(E, n, s)),
        'Flag': lambda E, n, s: B.Flag(text(E, n, s)),
        'Option': lambda E, n, s: B.Option(text(E, n, s), text(E, n + 'a', s)),
        'StdDescriptor': lambda E, n, s: B.StdDescriptor(std(E, n)),
        'FileNameWithIOInfo': lambda E, n, s: W.FileNameWithIOInfo(text(E, n, s), acc(E, n + 'a')),
        'StdDescriptorWithIOInfo': lambda E, n, s: W.StdDescriptorWithIOInfo(std(E, n), acc(E, n + 'a')),
        'OptionWithIO': lambda E, n, s: W.OptionWithIO(text(E, n, 1), ioarg(E, n + 'a')),
        'OptionWithIOVar': lambda E, n, s: V.OptionWithIOVar(text(E, n, 1), var(E, n + 'a')),
        'AccessKind': lambda E, n, s: AccessKind(E.pick(n, list(AccessKindEnum))),
        'CommandInvocationInitial': lambda E, n, s: CommandInvocationInitial(short(E, n, 2), flags(E, n + 'f'), lst(
            E, n + 'p', lambda E, m: B.Operand(short(E, m, 2)), 2)),
        'CommandInvocationWithIO': lambda E, n, s: CommandInvocationWithIO(short(E, n, 1), [W.OptionWithIO('-x', ioarg(E, n + 'f'))], [], opt(
            E, n + 'i', W.StdDescriptorWithIOInfo(std(E, n + 'i'), acc(E, n + 'ia'))), opt(E, n + 'o', W.StdDescriptorWithIOInfo(std(E, n + 'o'), acc(E, n + 'oa')))),
        'CommandInvocationWithIO operands': lambda E, n, s: CommandInvocationWithIO('c', [], lst(E, n + 'p', ioarg, 2), None, None),
        'CommandInvocationWithIOVars': withvars(CommandInvocationWithIOVars),
        'Mapper': withvars(Mapper),
        'Aggregator': withvars(Aggregator, agk),
        'TransformerSeq': lambda E, n, s: T.make_transformer_same_as_seq(),
        'TransformerEmpty': lambda E, n, s: T.make_transformer_empty(),
        'TransformerAdd': lambda E, n, s: T.make_transformer_add(flags(E, n)),
        'TransformerRemove': lambda E, n, s: T.make_transformer_remove(names(E, n)),
        'TransformerFilter': lambda E, n, s: T.make_transformer_filter(names(E, n)),
        'TransformerCustom': lambda E, n, s: T.make_transformer_custom(flags(E, n)),
        'TransformerChain': lambda E, n, s: T.ChainTransformerFlagOptionList(
            [T.make_transformer_filter(names(E, n + 'x')), T.make_transformer_remove(names(E, n + 'y')), T.make_transformer_empty()][:E.choose(n + '.n', 4)]),
        'MapperSpec': spec_m,
        'AggregatorSpec': spec_a,
        'Parallelizer': para,
    }


NAMES = ['FileName', 'ArgStringType', 'Operand', 'Flag', 'Option', 'StdDescriptor', 'FileNameWithIOInfo', 'StdDescriptorWithIOInfo', 'OptionWithIO',
         'OptionWithIOVar', 'AccessKind', 'CommandInvocationInitial', 'CommandInvocationWithIO', 'CommandInvocationWithIO operands',
         'CommandInvocationWithIOVars', 'Mapper', 'Aggregator', 'TransformerSeq', 'TransformerEmpty', 'TransformerAdd', 'TransformerRemove',
         'TransformerFilter', 'TransformerCustom', 'TransformerChain', 'MapperSpec', 'AggregatorSpec', 'Parallelizer']


def tasks(tier):
    s = 2 if tier == 'quick' else 4
    return [dict(fn='pair', params=dict(kind=k, size=s), cost=100) for k in NAMES] + \
        [dict(fn='cross', params=dict(i=i), cost=1) for i in range(len(NAMES))] + \
        [dict(fn='copies', params=dict(kind=k), cost=30) for k in NAMES]


def pair(E, p):
    mk = kinds()[p['kind']]
    a, b = mk(E, 'a', p['size']), mk(E, 'b', p['size'])
    want = E.same(a, b)
    r, s, t = E.call(lambda: a == b), E.call(lambda: b == a), E.call(lambda: a != b)
    E.check(r.ok and s.ok and t.ok, 'comparing raised')
    if not (r.ok and s.ok and t.ok):
        return
    if want:
        E.reach('equal')
        E.check(r.value, 'equal values compare unequal')
        E.check(s.value, 'equal values compare unequal (the other way round)')
        E.check(E.neg(t.value), 'equal values are different')
    else:
        E.reach('unequal')
        E.check(E.neg(r.value), 'different values compare equal')
        E.check(E.neg(s.value), 'different values compare equal (the other way round)')
        E.check(t.value, 'different values are not different')


class One:
    """All components concrete and alike."""
    def __init__(self, E):
        self.E = E

    def word(self, n, v=(), r=()):
        return '-x'

    def pick(self, n, v):
        v = list(v)
        return '-x' if '-x' in v else v[-1]

    def choose(self, n, k):
        return k - 1

    def boolean(self, n):
        return True


def cross(E, p):
    """A value of one kind never equals one of another kind, whatever they contain."""
    ks = kinds()
    names = list(ks)
    O = One(E)
    i = p['i']
    a = ks[names[i]](O, 'a', 2)
    for j in range(len(names)):
        b = ks[names[j]](O, 'b', 2)
        if type(a).__name__ == type(b).__name__:
            continue
        r = E.call(lambda: a == b)
        E.reach('other kind')
        E.check(r.ok and E.neg(r.value), 'a %s equals a %s' % (type(a).__name__, type(b).__name__))
    for x in ('-x', None, 0, ['-x']):
        r = E.call(lambda: a == x)
        E.check(r.ok and E.neg(r.value), 'equals a plain value')


def parts(x):
    """Objects and lists inside x, x included."""
    out, todo = [], [x]
    while todo:
        y = todo.pop()
        if isinstance(y, list):
            out.append(y)
            todo += y
        elif hasattr(y, '__dict__') and not callable(y) and type(y).__module__.startswith('pash_annotations') and not hasattr(type(y), '__members__'):
            out.append(y)
            todo += list(vars(y).values())
    return out


def copies(E, p):
    import copy
    mk = kinds()[p['kind']]
    a = mk(E, 'a', 1)
    r = E.call(copy.deepcopy, a)
    E.check(r.ok, 'copying raised')
    if not r.ok:
        return
    b = r.value
    E.check(a == b, 'a copy is not equal')
    E.check(E.same(a, b), 'a copy has other parts')
    c = copy.deepcopy(a)
    for y in parts(b):
        if isinstance(y, list):
            y.append('changed')
        else:
            for k in list(vars(y)):
                if not isinstance(vars(y)[k], list):
                    setattr(y, k, 'changed')
    if parts(a) and (isinstance(b, list) or vars(b)):
        E.reach('copy changed')
        E.check(E.neg(E.same(a, b)), 'the copy did not change')
    E.check(E.same(a, c), 'changing a copy changed the original')
