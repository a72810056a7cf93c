"""C14: annotating is a pure function of the invocation."""
from harness import iolib
from harness.ref import U, UNKNOWN, Util, spellings

LEVEL = 'model_checking'
TRACE_CAP = 50
EXPECT_TAGS = ['asked again', 'same command', 'other command', 'equal invocation', 'information', 'parallelizability', 'changed answers', 'inferred', 'shared name',
               'mapper built', 'operand replaced', 'argument replaced', 'flag or option replaced', 'shorter', 'flag added', 'operand added', 'other words',
               'other text']
ASSUMPTIONS = ['one thread; the answers are changed through their own methods and lists, not by rebinding names inside the library']
BOUNDS = {'quick': 'an invocation of every annotated utility with up to one flag or option (any spelling) and one operand of length <=1; between the two '
                   'requests one step on another invocation of the same utility with one arbitrary word, of any other one with a word from a part of its spellings, or on the invocation itself: '
                   'also every invocation with a flag or option that another utility has as well, before and after that one; the step: parse, annotate, apply, query, infer, build mapper and aggregator, or change everything that was returned; '
                   'and for each of these invocations its neighbours, asked after it and without it: another operand, argument, flag or option, one word fewer, one flag or operand more',
          'thorough': 'two flags and options and two operands, two steps'}
# what is done with the other invocation: everything one can ask, and every change of what was returned
STEPS = [['other outputs', 'inferred', 'mapper'], ['change io', 'change para', 'change applied', 'change parsed']]
NEAR = ['operand replaced', 'argument replaced', 'flag or option replaced', 'shorter', 'flag added', 'operand added', 'other words', 'other text']


def tasks(tier):
    t = tier == 'thorough'
    out = []
    cmds = sorted(U) + UNKNOWN[:1]
    for c in cmds:
        u = U.get(c, Util())
        for s in iolib.shapes(c, 1 if not t else 2):
            cost = (1 + len(u.cf) * s.count('f') + 2 * len(u.co) * s.count('o')) ** max(1, len(s))
            out.append(dict(fn='again', params=dict(a=c, shape=s, b=[c], l=1, steps=2 if t else 1), cost=cost * 10))
            for k in range(len(NEAR)):
                if applies(NEAR[k], s, u):
                    out.append(dict(fn='near', params=dict(a=c, shape=s, how=NEAR[k]), cost=cost * (2 + (k == 2) * cost)))
        for part in range(0, len(cmds), 8):
            out.append(dict(fn='again', params=dict(a=c, shape='', b=[x for x in cmds[part:part + 8] if x != c], l=1, steps=1), cost=300))
        pairs = [(b, w) for b in cmds if b != c for w in spellings(u) if w in spellings(U.get(b, Util()))]
        if pairs:
            out.append(dict(fn='shared', params=dict(a=c, pairs=pairs), cost=len(pairs) * 10))
    return out


def applies(how, shape, u):
    if how == 'argument replaced':
        return 'o' in shape
    if how == 'flag or option replaced':
        return shape != ''
    return how != 'flag added' or bool(u.cf)


def everything(c):
    """The parsed invocation of a line and all annotations of it."""
    from pash_annotations.parser.parser import parse
    inv = parse(c)
    return [inv] + ask(None, inv)


def near(E, p):
    """An invocation is asked after one that differs from it in one respect."""
    u, ex, how = U.get(p['a'], Util()), iolib.excluded(p['a']), p['how']
    names = lambda t: [s for s in sorted(t) if t[s] not in ex]
    short = lambda t: sorted(set(min(s for s in names(t) if t[s] == v) for v in set(t[s] for s in names(t))))

    def item(tag, k):
        if k == 'f':
            return [E.pick(tag, short(u.cf))]
        # one spelling of every option, so that only the argument or another respect differs
        return [E.pick(tag, short(u.co)), E.word(tag + 'a', ['-', '2', 'f', '+3'], (1,))]
    wa = [item('A%d' % i, k) for i, k in enumerate(p['shape'])]
    ops = [E.word('x', ['-'], (1,)), 'g']
    E.assume(E.any([E.neg(E.eq(ops[0][:1], '-')), E.eq(ops[0], '-')]))
    wb, opb = [list(w) for w in wa], list(ops)
    if how == 'operand replaced':
        y = E.word('y', ['-', 'yy'], (1,))
        E.assume(E.any([E.neg(E.eq(y[:1], '-')), E.eq(y, '-')]))
        opb[0] = y
    if how == 'argument replaced':
        i = p['shape'].index('o')
        wb[i][1] = E.word('b', ['-', '2', 'f', '+3', ''], (1,))
    if how == 'flag or option replaced':
        wb[-1] = item('B', p['shape'][-1])
    if how == 'shorter':
        if wb and E.choose('what', 2):
            wb.pop()
        else:
            opb.pop()
    if how == 'flag added':
        wb.append(item('B', 'f'))
    if how == 'operand added':
        opb.append(E.word('y', ['-'], (1,)))
    if how == 'other words':
        # the same text of words split elsewhere
        opb = ['g', ops[0]] if E.choose('what', 2) else [ops[0] + ' g']
    ca = E.command([p['a']] + sum(wa, []) + ops)
    cb = E.command([p['a']] + sum(wb, []) + opb)
    if how == 'other text':
        # another line of the same words, and what was parsed from it is changed afterwards
        cb = ca
    E.reach(how)
    want = E.apart(lambda: everything(cb))
    first = everything(ca)
    if how == 'other text':
        step(E, 'change parsed', first[0])
    later = everything(cb)
    E.observe('later', later)
    E.check(E.same(later, want), 'an invocation gets other annotations after one like it')


def shared(E, p):
    """A flag or option of the same name has been seen in another command."""
    from pash_annotations.parser.parser import parse
    b, w = p['pairs'][E.choose('pair', len(p['pairs']))]
    ca = E.command([p['a'], w, E.word('x', ['-'], (1,)), 'y'])
    want = E.apart(lambda: everything(ca))
    other = parse(E.command([b, w, 'z', 'y']))
    E.reach('shared name')
    for kind in sum(STEPS, []):
        step(E, kind, other)
    later = everything(ca)
    E.observe('later', later)
    E.check(E.same(later, want), 'an equal invocation gets other annotations after another command with that flag or option')


def ask(E, inv):
    """Everything there is to ask: (information, applied, has other outputs, parallelizability, inferred)."""
    from pash_annotations.annotation_generation.AnnotationGeneration import get_input_output_info_from_cmd_invocation as io
    from pash_annotations.annotation_generation.AnnotationGeneration import get_parallelizability_info_from_cmd_invocation as para
    a, b = io(inv), para(inv)
    return [a, None if a is None else a.apply_input_output_info_to_command_invocation(inv),
            None if a is None else a.has_other_outputs(), b, None if b is None else list(b.get_inferred_parallelizer_list()),
            None if b is None else b.unpack_info()]


def words(E, cmd, name, shape, l):
    """A symbolic invocation: any flags and options in that shape and an operand."""
    u, ex, ws = U.get(cmd, Util()), iolib.excluded(cmd), []
    for i, k in enumerate(shape):
        t = u.cf if k == 'f' else u.co
        ws.append(E.pick('%s%s%d' % (name, k, i), [s for s in sorted(t) if t[s] not in ex]))
        if k == 'o':
            ws.append(E.word('%sa%d' % (name, i), ['-'], (1,)))
    return ws


def build(b, inv):
    """Mapper and aggregator of the offered parallelizers, over stream identifiers."""
    from pash_annotations.datatypes.AccessKind import make_stream_input, make_stream_output
    from pash_annotations.datatypes.CommandInvocationWithIOVars import CommandInvocationWithIOVars
    from pash_annotations.datatypes.BasicDatatypes import Flag
    iv = CommandInvocationWithIOVars(inv.cmd_name, [f for f in inv.flag_option_list if isinstance(f, Flag)], [], 1, 2,
                                     {1: make_stream_input(), 2: make_stream_output()})
    for par in b.get_inferred_parallelizer_list():
        try:
            par.get_actual_mapper(iv, 3, 4)
            par.get_actual_aggregator(iv, [3, 4], 5)
        except Exception:
            pass


def step(E, kind, inv):
    from pash_annotations.annotation_generation.AnnotationGeneration import get_input_output_info_from_cmd_invocation as io
    from pash_annotations.annotation_generation.AnnotationGeneration import get_parallelizability_info_from_cmd_invocation as para
    from pash_annotations.datatypes.BasicDatatypes import Flag, Option, Operand
    if kind == 'io':
        io(inv)
    if kind in ('apply', 'other outputs', 'change io', 'change applied'):
        a = io(inv)
        if a is None:
            return
        if kind == 'other outputs':
            a.has_other_outputs()
            return
        app = a.apply_input_output_info_to_command_invocation(inv)
        if kind == 'change io':
            E.reach('changed answers')
            a.set_all_operands_as_config_arg_type_string()
            a.operand_list_typer.append(a.operand_list_typer[0] if a.operand_list_typer else None)
            a.flagoption_list_typer.clear()
            if a.implicit_use_of_streaming_input is not None:
                a.implicit_use_of_streaming_input.access = a.implicit_use_of_streaming_output
            a.set_implicit_use_of_streaming_output(None)
        if kind == 'change applied':
            E.reach('changed answers')
            for x in app.operand_list:
                if hasattr(x, 'access'):
                    x.access.kind = None
                    x.access = None
            app.operand_list.reverse()
            app.flag_option_list.clear()
            app.implicit_use_of_streaming_input = None
    if kind in ('para', 'inferred', 'mapper', 'change para'):
        b = para(inv)
        if b is None:
            return
        if kind == 'inferred':
            E.reach('inferred')
            b.get_inferred_parallelizer_list()
            b.get_inferred_parallelizer_list()
        if kind == 'mapper':
            E.reach('mapper built')
            build(b, inv)
        if kind == 'change para':
            E.reach('changed answers')
            for par in list(b.parallelizer_list):
                for x in (par.core_mapper_spec, par.core_aggregator_spec):
                    x.is_implemented = not x.is_implemented
                par.splitter.kind = None
                par.core_aggregator_spec = None
                par.info_mapper_aggregator = 9
            b.append_to_parallelizer_list(1)
            b.parallelizer_list.reverse()
            b.set_commutative()
    if kind == 'change parsed':
        E.reach('changed answers')
        io(inv), para(inv)
        for x in inv.flag_option_list:
            if isinstance(x, Flag):
                x.flag_name = '-changed'
            else:
                x.option_arg = 'changed'
        for x in inv.operand_list:
            x.name = 'changed'
        inv.flag_option_list.append(Flag('-x'))
        inv.operand_list.insert(0, Operand('new'))
        inv.cmd_name = 'changed'


def again(E, p):
    from pash_annotations.parser.parser import parse
    wa = words(E, p['a'], 'A', p['shape'], p['l'])
    wa = wa + [E.word('x', ['-'], (p['l'],))] if p['shape'] != 'f' else wa
    ca = E.command([p['a']] + wa)
    want = E.apart(lambda: everything(ca))
    inv = parse(ca)
    first = ask(E, inv)
    E.observe('first', first)
    E.reach('information' if first[0] is not None else 'none')
    E.reach('parallelizability' if first[3] is not None else 'none')
    E.check(E.same([inv] + first, want), 'annotating changed the invocation, or gives different answers at once')
    for i in range(p['steps']):
        kinds = STEPS[E.choose('step%d' % i, len(STEPS))]
        which = E.choose('which%d' % i, len(p['b']) + (p['b'] == [p['a']]))
        if which == len(p['b']):
            E.reach('equal invocation')
            other = parse(ca)
        else:
            cb = p['b'][which]
            E.reach('same command' if cb == p['a'] else 'other command')
            ub = U.get(cb, Util())
            other = parse(E.command([cb, E.word('B%d' % i, spellings(ub)[::1 if cb == p['a'] else 5], (1,)), 'g']))
        for kind in kinds:
            step(E, kind, other)
    E.reach('asked again')
    E.check(E.same([inv] + first, want), 'the invocation or an answer changed after it was given')
    E.check(E.same(ask(E, inv), want[1:]), 'the same invocation gets other annotations later')
    E.check(E.same(everything(ca), want), 'an equal invocation gets other annotations, or the line is parsed differently later')
