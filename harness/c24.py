"""C24: stream queries and edits agree with the access map."""
from harness import iovlib as L

LEVEL = 'model_checking'
EXPECT_TAGS = ['inputs', 'outputs', 'other outputs', 'no other outputs', 'replaced', 'not in use', 'same', 'input removed', 'output removed',
               'option removed', 'implicit removed', 'twice']
ASSUMPTIONS = ['an identifier is not replaced by one already in use with another access kind (no access map could describe that)',
               'identifiers are only compared, so their equality pattern and which of them is 0 stand for all values']
BOUNDS = {'quick': 'up to 2 flags and options, up to 3 operands, implicit input and output, at most 3 identifiers in all (2 in most arrangements for replacing), in every equality '
                   'pattern and of any of the 7 access kinds; every identifier to replace and to replace it by',
          'thorough': 'at most 4 identifiers, every arrangement of flags, options and argument strings'}


def tasks(tier):
    q = tier == 'quick'
    out = []
    for w in ('queries', 'replace', 'remove'):
        if not q:
            sh = L.shapes(4 if w != 'replace' else 3)
        elif w == 'replace':
            sh = L.quick_shapes(2) + [('V', 'V', 1, 0), ('', 'SV', 1, 1), ('', 'VSV', 0, 1), ('VV', '', 1, 0)]
        else:
            sh = L.quick_shapes(3, ['', 'F', 'V', 'SV', 'VV'], ['', 'V', 'SV', 'VSV'])
        out += L.chunked(w, sh, 12 if q else 48)
    return out


def start(E, p):
    r = L.build(E, p['shapes'][E.choose('shape', len(p['shapes']))])
    if len(r.slots) > len(r.pool):
        E.reach('twice')
    return r


def queries(E, p):
    r = start(E, p)
    import copy
    before = copy.deepcopy(vars(r.inv))
    which = E.choose('query', 3)
    res = E.call([r.inv.generate_inputs, r.inv.generate_outputs, r.inv.has_other_outputs][which])
    E.check(res.ok, 'a query raised')
    if not res.ok:
        return
    E.observe('res', res.value)
    if which == 0:
        want = [v for v in r.slots if L.is_kind(E, r, v, 'STREAM_INPUT')]
        E.reach('inputs')
        E.check(E.same(list(res.value.get_streaming_inputs()), want), 'streaming inputs')
        E.check(E.same(list(res.value.get_config_inputs()), []), 'configuration inputs')
    elif which == 1:
        want = [v for v in r.slots if L.is_kind(E, r, v, 'STREAM_OUTPUT', 'OTHER_OUTPUT')]
        E.reach('outputs')
        E.check(E.same(list(res.value), want), 'outputs')
    else:
        want = E.any([L.is_kind(E, r, v, 'OTHER_OUTPUT') for v in r.slots])
        if want:
            E.reach('other outputs')
            E.check(res.value, 'other outputs are denied')
        else:
            E.reach('no other outputs')
            E.check(E.neg(res.value), 'other outputs are claimed')
    E.check(E.same(vars(r.inv), before), 'a query changed the invocation')


def replace(E, p):
    r = start(E, p)
    n = len(r.pool)
    a, b = E.pick('from', list(range(n + 1))), E.pick('to', list(range(n + 2)))
    used = E.any([E.eq(v, a) for v in r.slots])
    clash = E.any([E.eq(v, b) for v in r.pool])
    # replacing by one in use is only meaningful with the same access kind
    for x in r.pool:
        for y in r.pool:
            if x != y:
                E.assume(E.neg(E.all([E.eq(a, x), E.eq(b, y), E.neg(E.eq(r.names[x], r.names[y]))])))
    import copy
    before = copy.deepcopy(vars(r.inv))
    res = E.call(r.inv.replace_var, a, b)
    E.check(res.ok, 'replacing raised')
    if not res.ok:
        return
    E.observe('inv', r.inv)
    if not used:
        E.reach('not in use')
        E.check(E.same(vars(r.inv), before), 'replacing an identifier that is not in use changed something')
        return
    E.reach('replaced')

    def sub(v):
        return v if v is None else E.ite(E.eq(v, a), b, v)
    lay = ([(t, x, sub(y) if t == 'V' else y) for t, x, y in r.fo], [(t, sub(x) if t == 'V' else x) for t, x in r.ops], sub(r.iin), sub(r.iout))
    L.same_layout(E, r.inv, lay, 'after replacement')
    for v in r.slots:
        L.access_is(E, r.inv, sub(v), L.kind(E, r, v), 'after replacement')
    if E.eq(a, b):
        E.reach('same')
    else:
        E.check(E.neg(L.has_key(E, r.inv, a)), 'the replaced identifier keeps an access kind')


def remove(E, p):
    r = start(E, p)
    which = E.choose('which', 2)
    k = ['STREAM_INPUT', 'STREAM_OUTPUT'][which]
    gone = {v: bool(L.is_kind(E, r, v, k)) for v in r.pool}
    res = E.call(r.inv.remove_streaming_outputs if which else r.inv.remove_streaming_inputs)
    E.check(res.ok, 'removing raised')
    if not res.ok:
        return
    E.observe('inv', r.inv)
    lay = ([x for x in r.fo if x[0] != 'V' or not gone[x[2]]], [x for x in r.ops if x[0] != 'V' or not gone[x[1]]],
           None if r.iin is None or gone[r.iin] else r.iin, None if r.iout is None or gone[r.iout] else r.iout)
    L.same_layout(E, r.inv, lay, 'after removal')
    for v in r.pool:
        if gone[v]:
            E.reach('output removed' if which else 'input removed')
            E.check(E.neg(L.has_key(E, r.inv, v)), 'a removed identifier keeps an access kind')
        else:
            L.access_is(E, r.inv, v, L.kind(E, r, v), 'after removal')
    if len(lay[0]) < len(r.fo):
        E.reach('option removed')
    if (lay[2], lay[3]) != (r.iin, r.iout):
        E.reach('implicit removed')
