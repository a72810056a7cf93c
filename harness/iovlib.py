"""Invocations over stream identifiers, for C18 and C20-C24: every position of every shape, symbolic identifiers and access kinds."""
KINDS = ['STREAM_INPUT', 'STREAM_OUTPUT', 'OTHER_INPUT', 'OTHER_OUTPUT', 'CONFIG_INPUT', 'CONTAINER_FOR_INPUT', 'EXCLUDES_FROM_INPUT']


QUICK_FO = ['', 'F', 'V', 'SV', 'VF', 'VV']
QUICK_OP = ['', 'S', 'V', 'SV', 'VS', 'VV', 'VSV']


def quick_shapes(maxvars, fos=None, ops=None):
    return [(f, o, i, j) for f in (fos or QUICK_FO) for o in (ops or QUICK_OP) for i in (0, 1) for j in (0, 1)
            if (f + o).count('V') + i + j <= maxvars]


def nvars(shape):
    return (shape[0] + shape[1]).count('V') + shape[2] + shape[3]


def patterns(n):
    """Equality patterns of n identifiers (restricted growth strings)."""
    out = [[]]
    for _ in range(n):
        out = [p + [k] for p in out for k in range((max(p) + 1 if p else 0) + 1)]
    return out


def identifiers(E, n):
    """n identifiers in any equality pattern; either the first or the last one is 0."""
    ps = patterns(n)
    p = ps[E.choose('pattern', len(ps))]
    k = max(p) + 1 if p else 0
    if k > 1 and E.choose('lab', 2):
        # the class of the last one becomes 0
        return [(c - p[-1]) % k for c in p]
    return p


def shapes(maxvars, maxfo=2, maxop=3):
    """All (flags/options, operands, implicit in, implicit out): F flag, S string, V identifier; at most maxvars identifiers."""
    def seqs(alpha, n):
        out = ['']
        lev = ['']
        for _ in range(n):
            lev = [s + k for s in lev for k in alpha]
            out += lev
        return out
    out = []
    for fo in seqs('FSV', maxfo):
        for op in seqs('SV', maxop):
            for i in (0, 1):
                for o in (0, 1):
                    if fo.count('V') + op.count('V') + i + o <= maxvars:
                        out.append((fo, op, i, o))
    return out


class Inv:
    """An invocation, its identifiers by position, and the access kind of every identifier in the pool."""


def build(E, shape, names=('-a',), kinds=KINDS, cls=None, ids=None):
    from pash_annotations.datatypes.BasicDatatypes import Flag, ArgStringType
    from pash_annotations.datatypes.BasicDatatypesWithIOVar import OptionWithIOVar
    from pash_annotations.datatypes.CommandInvocationWithIOVars import CommandInvocationWithIOVars
    from pash_annotations.datatypes.AccessKind import AccessKind, AccessKindEnum
    fo, op, ii, io = shape
    r = Inv()
    if ids is None:
        ids = identifiers(E, nvars(shape))
    ids = list(ids)
    pool = r.pool = sorted(set(ids))
    r.cmd = E.word('cmd', ['cmd', './bin/c', 'a.py'], (1,))
    r.names = {k: E.pick('acc%d' % k, kinds) for k in pool}
    amap = {k: AccessKind(getattr(AccessKindEnum, r.names[k])) for k in pool}
    r.slots = []
    fol, ops = [], []
    r.fo, r.ops = [], []

    def var(n):
        v = ids.pop(0)
        r.slots.append(v)
        return v
    for i, k in enumerate(fo):
        n = E.pick('name%d' % i, names)
        if k == 'F':
            fol.append(Flag(n))
            r.fo.append(('F', n, None))
        elif k == 'S':
            a = E.word('txt%d' % i, ['x'], (1,))
            fol.append(OptionWithIOVar(n, ArgStringType(a)))
            r.fo.append(('S', n, a))
        else:
            v = var('fv%d' % i)
            fol.append(OptionWithIOVar(n, v))
            r.fo.append(('V', n, v))
    for i, k in enumerate(op):
        if k == 'S':
            a = E.word('op%d' % i, ['x'], (1,))
            ops.append(ArgStringType(a))
            r.ops.append(('S', a))
        else:
            v = var('ov%d' % i)
            ops.append(v)
            r.ops.append(('V', v))
    r.iin = var('iin') if ii else None
    r.iout = var('iout') if io else None
    r.inv = (cls or CommandInvocationWithIOVars)(r.cmd, fol, ops, r.iin, r.iout, amap)
    return r


def kind(E, r, v):
    return r.names[v]


def is_kind(E, r, v, *ks):
    k = kind(E, r, v)
    return E.any([E.eq(k, x) for x in ks])


def layout(E, inv):
    """(flags and options, operands, implicit in, implicit out) of an invocation as plain values."""
    from pash_annotations.datatypes.BasicDatatypes import Flag, ArgStringType
    fo = []
    for x in inv.flag_option_list:
        if isinstance(x, Flag):
            fo.append(('F', x.get_name(), None))
        elif isinstance(x.option_arg, ArgStringType):
            fo.append(('S', x.option_name, x.option_arg.name))
        else:
            fo.append(('V', x.option_name, x.option_arg))
    ops = []
    for x in inv.operand_list:
        if isinstance(x, ArgStringType):
            ops.append(('S', x.name))
        else:
            ops.append(('V', x))
    return fo, ops, inv.implicit_use_of_streaming_input, inv.implicit_use_of_streaming_output


def same_layout(E, inv, want, what):
    fo, ops, ii, io = layout(E, inv)
    wfo, wops, wii, wio = want
    E.check(E.same([list(x) for x in fo], [list(x) for x in wfo]), what + ': flags and options')
    E.check(E.same([list(x) for x in ops], [list(x) for x in wops]), what + ': operands')
    E.check(E.same(ii, wii), what + ': implicit input')
    E.check(E.same(io, wio), what + ': implicit output')


def access_is(E, inv, v, want, what):
    """The access map gives v the kind named `want`."""
    r = E.call(lambda: inv.access_map[v].kind.name)
    E.check(r.ok, what + ': no access kind')
    if r.ok:
        E.check(E.eq(r.value, want), what + ': wrong access kind')


def has_key(E, inv, v):
    return E.any([E.eq(k, v) for k in inv.access_map.keys()])


def vars_of(fo, ops, ii, io):
    return [x[2] for x in fo if x[0] == 'V'] + [x[1] for x in ops if x[0] == 'V'] + [x for x in (ii, io) if x is not None]


def notin(E, v, vs):
    for x in vs:
        E.assume(E.neg(E.eq(v, x)))


def substituted(E, r, ins, outs):
    """Reference: the layout after replacing streaming inputs by `ins` and streaming outputs by `outs` in traversal order (None: leave
    them), with the expected access kind per identifier position; or None if a number mismatches."""
    left = {'STREAM_INPUT': None if ins is None else list(ins), 'STREAM_OUTPUT': None if outs is None else list(outs)}
    kinds = []
    bad = [False]

    def sub(v):
        if v is None:
            return None
        kinds.append(kind(E, r, v))
        for k in ('STREAM_INPUT', 'STREAM_OUTPUT'):
            if left[k] is not None and is_kind(E, r, v, k):
                if not left[k]:
                    bad[0] = True
                    return v
                return left[k].pop(0)
        return v
    fo = [(t, n, sub(a) if t == 'V' else a) for t, n, a in r.fo]
    ops = [(x[0], sub(x[1]) if x[0] == 'V' else x[1]) for x in r.ops]
    ii, io = sub(r.iin), sub(r.iout)
    if bad[0] or left['STREAM_INPUT'] or left['STREAM_OUTPUT']:
        return None
    return (fo, ops, ii, io), kinds


def number(E, r, k):
    """How many positions have access kind k (forks)."""
    n = 0
    for v in r.slots:
        if is_kind(E, r, v, k):
            n += 1
    return n


def chunked(fn, shapes, parts, **kw):
    shapes = sorted(shapes, key=nvars)
    return [dict(fn=fn, params=dict(shapes=shapes[k::parts], **kw), cost=100) for k in range(parts)]


def fresh(E, r, name, n, retained):
    """n identifiers, equal to any of those of the invocation that are not retained (identifier -> guard) or new."""
    out = [E.pick('%s%d' % (name, i), list(range(len(r.pool) + 2))) for i in range(n)]
    for x in out:
        for v in r.pool:
            E.assume(E.neg(E.all([E.eq(x, v), retained(v)])))
    return out
