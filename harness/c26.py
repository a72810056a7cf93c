"""C26: every access kind is exactly one of input and output."""
LEVEL = 'model_checking'
NAMES = ['CONFIG_INPUT', 'STREAM_INPUT', 'CONTAINER_FOR_INPUT', 'EXCLUDES_FROM_INPUT', 'OTHER_INPUT', 'STREAM_OUTPUT', 'OTHER_OUTPUT']
EXPECT_TAGS = ['known name', 'unknown name'] + NAMES
ASSUMPTIONS = []
BOUNDS = {'quick': 'all seven access kinds; names: the seven documented ones, some near misses, and every string of length 0-21 over codes 1-126',
          'thorough': 'the same with strings of length 0-40'}


def tasks(tier):
    n = 21 if tier == 'quick' else 40
    return [dict(fn='kinds', params={}), dict(fn='makers', params={}), dict(fn='equal', params={})] + \
        [dict(fn='names', params=dict(lo=lo, hi=min(lo + 6, n))) for lo in range(0, n + 1, 7)]


def queries(k):
    return [k.is_config_input(), k.is_stream_input(), k.is_container_for_input(), k.is_excludes_from_input(), k.is_other_input(),
            k.is_stream_output(), k.is_other_output()]


def one_of(E, k, want, what):
    q = queries(k)
    for i in range(7):
        if i == want:
            E.check(q[i], '%s: query %s is false' % (what, NAMES[i]))
        else:
            E.check(E.neg(q[i]), '%s: query %s is true' % (what, NAMES[i]))
    if want < 5:
        E.check(k.is_any_input(), what + ' is not an input')
        E.check(E.neg(k.is_any_output()), what + ' is an output')
    else:
        E.check(k.is_any_output(), what + ' is not an output')
        E.check(E.neg(k.is_any_input()), what + ' is an input')


def kinds(E, p):
    """Whatever the kind, exactly one specific query holds, and exactly one of input and output."""
    from pash_annotations.datatypes.AccessKind import AccessKind, AccessKindEnum
    kind = E.pick('kind', [getattr(AccessKindEnum, n) for n in NAMES])
    k = AccessKind(kind)
    q = queries(k)
    E.check(E.eq(E.count(q), 1), 'not exactly one specific query is true')
    E.check(E.eq(E.count([k.is_any_input(), k.is_any_output()]), 1), 'not exactly one of input and output')
    E.observe('q', q)
    for i in range(7):
        if E.eq(kind, getattr(AccessKindEnum, NAMES[i])):
            E.reach(NAMES[i])
            one_of(E, k, i, NAMES[i])


def makers(E, p):
    from pash_annotations.datatypes import AccessKind as M
    fs = [M.make_config_input, M.make_stream_input, M.make_container_for_input, M.make_excludes_from_input, M.make_other_input,
          M.make_stream_output, M.make_other_output]
    i = E.choose('i', 7)
    one_of(E, fs[i](), i, 'made ' + NAMES[i])


def equal(E, p):
    from pash_annotations.datatypes.AccessKind import get_access_from_string
    i, j = E.choose('i', 7), E.choose('j', 7)
    a, b = get_access_from_string(NAMES[i]), get_access_from_string(NAMES[j])
    E.check((a == b) == (i == j), 'equality of access kinds')


def names(E, p):
    from pash_annotations.datatypes.AccessKind import get_access_from_string
    w = E.word('name', NAMES + ['', 'STREAM', 'INPUT', 'config_input', 'STREAM_INPUT ', ' OTHER_OUTPUT', 'CONTAINER', 'OTHER',
                                'CONTAINER_FOR_INPUT\n', 'EXCLUDES_FROM_OUTPUT', 'CONFIG_OUTPUT', 'None'], range(p['lo'], p['hi'] + 1))
    r = E.call(get_access_from_string, w)
    for i in range(7):
        if E.eq(w, NAMES[i]):
            E.reach('known name')
            E.check(r.ok, 'a documented name is refused')
            if r.ok:
                one_of(E, r.value, i, 'named ' + NAMES[i])
            return
    E.reach('unknown name')
    E.check(not r.ok, 'an undocumented name is accepted')
