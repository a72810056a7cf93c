"""C02: alias spellings are interchangeable."""
from harness.ref import U, spellings

LEVEL = 'model_checking'
EXPECT_TAGS = ['flag alias', 'option alias', 'group', 'attached', 'group with option', 'annotated']
ASSUMPTIONS = ['one position of the line varies (two letters for a group); the words around it are arbitrary within the bounds']
BOUNDS = {'quick': 'every annotated command with flags or options; every pair of spellings of the same flag or option; every pair of '
                   'letters in a group; option arguments of length 0-2 (1-2 attached); preceded by nothing, any flag, or any option with an argument of length <=1, followed by a word of length <=1',
          'thorough': 'arguments of length 0-3, words before and after of length <=2, the latter or any spelling'}


def tasks(tier):
    out = []
    for c in sorted(U):
        u = U[c]
        k = 1 if tier == 'quick' else 2
        if u.flags:
            out.append(dict(fn='flags', params=dict(cmd=c, k=k), cost=3))
            out.append(dict(fn='group', params=dict(cmd=c, k=k), cost=5))
        if u.opts:
            out.append(dict(fn='options', params=dict(cmd=c, k=k), cost=5))
            out.append(dict(fn='group_option', params=dict(cmd=c, k=k), cost=5))
        if u.flags or u.opts:
            out.append(dict(fn='annotations', params=dict(cmd=c, k=k), cost=10))
    return out


def around(E, u, k):
    """What comes before (nothing, a flag, an option with any argument) and one arbitrary word after."""
    post = [E.word('post', [] if k == 1 else spellings(u), range(0, k + 1))]
    kinds = [[]]
    if u.cf:
        kinds.append([E.pick('pf', sorted(u.cf))])
    if u.co:
        kinds.append([E.pick('po', sorted(u.co)), E.word('parg', spellings(u)[:2], range(0, k + 1))])
    return kinds[E.choose('pre', len(kinds))], post


def both(E, cmd, l1, l2, msg):
    from pash_annotations.parser.parser import parse
    a = E.call(parse, E.command([cmd] + l1))
    b = E.call(parse, E.command([cmd] + l2))
    E.check(a.ok == b.ok, msg + ' (one is refused)')
    if a.ok and b.ok:
        E.observe('a', a.value)
        E.check(E.same(a.value, b.value), msg)
        E.check(a.value == b.value, msg + ' (==)')
    return a, b


def flags(E, p):
    u = U[p['cmd']]
    pre, post = around(E, u, p['k'])
    a = E.pick('a', sorted(u.cf))
    b = E.pick('b', sorted(u.cf))
    E.assume(E.eq(u.cf[a], u.cf[b]))
    E.reach('flag alias')
    both(E, p['cmd'], pre + [a] + post, pre + [b] + post, 'two spellings of a flag parse differently')


def letters(table):
    return sorted(s[1] for s in table if len(s) == 2)


def group(E, p):
    u = U[p['cmd']]
    ls = letters(u.cf)
    if not ls:
        return
    pre, post = around(E, u, p['k'])
    x = E.pick('x', ls)
    y = E.pick('y', ls)
    # a letter that can also be an option with an attached argument would take the second one
    E.assume(E.neg(E.any([E.eq(x, s[1]) for s in u.co_att if len(s) == 2])))
    a = E.pick('a', sorted(u.cf))
    b = E.pick('b', sorted(u.cf))
    E.assume(E.eq(u.cf[a], u.cf['-' + x]))
    E.assume(E.eq(u.cf[b], u.cf['-' + y]))
    E.reach('group')
    both(E, p['cmd'], pre + ['-' + x + y] + post, pre + [a, b] + post, 'a group of letters parses differently from its flags')


def options(E, p):
    u = U[p['cmd']]
    pre, post = around(E, u, p['k'])
    arg = E.word('arg', spellings(u)[:3] + ['-', '--'], range(0, p['k'] + 2))
    a = E.pick('a', sorted(u.co))
    form = E.choose('form', 3)
    l1 = pre + [a, arg] + post
    if form == 0:
        b = E.pick('b', sorted(u.co))
        E.assume(E.eq(u.co[a], u.co[b]))
        E.reach('option alias')
        both(E, p['cmd'], l1, pre + [b, arg] + post, 'two spellings of an option parse differently')
    elif form == 1:
        ls = [s for s in sorted(u.co_att) if len(s) == 2]
        if not ls:
            return
        b = E.pick('b', ls)
        E.assume(E.eq(u.co[a], u.co_att[b]))
        E.assume(E.neg(E.eq(arg, '')))
        E.reach('attached')
        both(E, p['cmd'], l1, pre + [b + arg] + post, 'an attached argument parses differently from a separate one')
    else:
        ls = [s for s in sorted(u.co_att) if len(s) > 2]
        if not ls:
            return
        b = E.pick('b', ls)
        E.assume(E.eq(u.co[a], u.co_att[b]))
        w = b + '=' + arg
        # --color=always and the like are flags of their own
        E.assume(E.neg(E.any([E.eq(w, s) for s in u.cf if '=' in s])))
        E.reach('attached')
        both(E, p['cmd'], l1, pre + [w] + post, 'an attached argument parses differently from a separate one')


def group_option(E, p):
    u = U[p['cmd']]
    fl = [x for x in letters(u.cf) if '-' + x not in u.co_att]
    ol = [s for s in sorted(u.co) if len(s) == 2 and s not in u.cf]
    if not fl or not ol:
        return
    pre, post = around(E, u, p['k'])
    arg = E.word('arg', ['-', '--'], range(0, p['k'] + 1))
    x = E.pick('x', fl)
    o = E.pick('o', ol)
    E.reach('group with option')
    if E.choose('attached', 2) == 0:
        both(E, p['cmd'], pre + ['-' + x + o[1:], arg] + post, pre + ['-' + x, o, arg] + post, 'an option at the end of a group parses differently')
    else:
        E.assume(E.neg(E.eq(arg, '')))
        both(E, p['cmd'], pre + ['-' + x + o[1:] + arg] + post, pre + ['-' + x, o, arg] + post,
             'an option with attached argument at the end of a group parses differently')


def annotations(E, p):
    """Equal annotations for two spellings, the words around drawn from the utility's own vocabulary."""
    from pash_annotations.annotation_generation.AnnotationGeneration import get_input_output_info_from_cmd_invocation as io
    from pash_annotations.annotation_generation.AnnotationGeneration import get_parallelizability_info_from_cmd_invocation as para
    u = U[p['cmd']]
    if E.choose('kind', 2) == 0:
        fs = sorted(u.cf)
        if not fs:
            return
        a, b = E.pick('a', fs), E.pick('b', fs)
        E.assume(E.eq(u.cf[a], u.cf[b]))
        la, lb = [a], [b]
    else:
        os = sorted(u.co)
        if not os:
            return
        a, b = E.pick('a', os), E.pick('b', os)
        E.assume(E.eq(u.co[a], u.co[b]))
        arg = E.pick('arg', ['1', '-'])
        la, lb = [a, arg], [b, arg]
    post = ['x', 'f'][:E.choose('posts', 3)]
    x, y = both(E, p['cmd'], la + post, lb + post, 'two spellings parse differently')
    if x.ok and y.ok:
        E.reach('annotated')
        i1, i2 = E.call(io, x.value), E.call(io, y.value)
        q1, q2 = E.call(para, x.value), E.call(para, y.value)
        E.check(i1.ok == i2.ok and q1.ok == q2.ok, 'only one spelling is refused')
        if i1.ok and i2.ok:
            E.check(E.same(i1.value, i2.value), 'input/output information depends on the spelling')
        if q1.ok and q2.ok:
            E.check(E.same(q1.value, q2.value), 'parallelizability information depends on the spelling')
