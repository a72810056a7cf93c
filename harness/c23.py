"""C23: stream substitution is ordered, complete and leaves the rest alone."""
from harness import iovlib as L

LEVEL = 'model_checking'
EXPECT_TAGS = ['refused', 'input replaced', 'output replaced', 'kept', 'twice', 'reused']
ASSUMPTIONS = ['a new identifier is not one that stays in the invocation with another access kind, and new inputs are neither new outputs '
               'nor outputs still to be replaced (no access map could describe that)',
               'identifiers are only compared, so their equality pattern and which of them is 0 stand for all values']
BOUNDS = {'quick': 'up to 2 flags and options, up to 3 operands, implicit input and output, at most 3 identifiers in all (2 when only '
                   'inputs or only outputs are substituted), in every equality '
                   'pattern and of any access kind; as many arbitrary new identifiers as there are streams, or one more or less',
          'thorough': 'at most 4 (3) identifiers, every arrangement of flags, options and argument strings'}


def tasks(tier):
    q = tier == 'quick'
    out = []
    for w in ('both', 'ins', 'outs'):
        sh = L.quick_shapes(3 if w == 'both' else 2, ['', 'F', 'V', 'SV', 'VV'] if w == 'both' else None, ['', 'V', 'SV', 'VS', 'VSV'] if w == 'both' else None) if q else L.shapes(4 if w == 'both' else 3)
        out += L.chunked('subst', sh, (24 if w == 'both' else 6) * (1 if q else 3), which=w)
    return out


def subst(E, p):
    which = p['which']
    r = L.build(E, p['shapes'][E.choose('shape', len(p['shapes']))], kinds=L.KINDS[:4])
    ni, no = L.number(E, r, 'STREAM_INPUT'), L.number(E, r, 'STREAM_OUTPUT')
    if which == 'outs':
        ni = 0
    if which == 'ins':
        no = 0
    d = E.choose('delta', 5 if which == 'both' else 3)
    di, do = [(0, 0), (1, 0), (-1, 0), (0, 1), (0, -1)][d] if which != 'outs' else [(0, 0), (0, 1), (0, -1)][d]
    E.assume(ni + di >= 0 and no + do >= 0)
    ins = L.fresh(E, r, 'in', ni + di, lambda v: E.neg(L.is_kind(E, r, v, 'STREAM_INPUT')))
    outs = L.fresh(E, r, 'out', no + do, lambda v: E.neg(L.is_kind(E, r, v, 'STREAM_OUTPUT', *(['STREAM_INPUT'] if which == 'both' else []))))
    for a in ins:
        L.notin(E, a, outs)
    want = L.substituted(E, r, None if which == 'outs' else ins, None if which == 'ins' else outs)
    args = [list(ins), list(outs)]
    if which == 'both':
        res = E.call(r.inv.substitute_inputs_and_outputs_in_cmd_invocation, ins, outs)
    elif which == 'ins':
        res = E.call(r.inv.substitute_inputs_in_cmd_invocation, ins)
    else:
        res = E.call(r.inv.substitute_outputs_in_cmd_invocation, outs)
    if want is None:
        E.reach('refused')
        E.check(not res.ok, 'a wrong number of identifiers is accepted')
        return
    E.check(res.ok, 'substitution raised')
    if not res.ok:
        return
    lay, kinds = want
    E.observe('inv', r.inv)
    E.check(E.same([ins, outs], args), "the caller's lists changed")
    E.check(E.eq(r.inv.cmd_name, r.cmd), 'command name')
    L.same_layout(E, r.inv, lay, 'after substitution')
    vs = L.vars_of(*lay)
    for v, k in zip(vs, kinds):
        L.access_is(E, r.inv, v, k, 'after substitution')
    for v, w in zip(r.slots, vs):
        E.reach('kept' if v is w else 'input replaced' if L.is_kind(E, r, v, 'STREAM_INPUT') else 'output replaced')
    if len(r.slots) > len(r.pool):
        E.reach('twice')
    if d == 0 and ins and r.slots and E.eq(ins[0], r.slots[0]):
        E.reach('reused')
