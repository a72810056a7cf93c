"""C30: the building blocks of annotations assign exactly the roles they name."""
LEVEL = 'model_checking'
SI, SO, OI, OO, CI, STR = 'STREAM_INPUT', 'STREAM_OUTPUT', 'OTHER_INPUT', 'OTHER_OUTPUT', 'CONFIG_INPUT', 'STR'
ALL = [('all_operands_are_streaming_inputs', SI), ('all_operands_are_streaming_outputs', SO), ('all_operands_are_other_inputs', OI),
       ('all_operands_are_other_outputs', OO), ('set_all_operands_as_config_arg_type_string', STR), ('set_all_operands_as_arg_string', STR)]
BUTLAST = [('all_but_last_operand_is_streaming_input', SI), ('all_but_last_operand_is_other_input', OI)]
LAST = [('only_last_operand_is_stream_output', SO), ('only_last_operand_is_other_output', OO)]
BUTFIRST = [('all_but_first_operand_is_streaming_input', SI), ('all_but_first_operand_is_streaming_output', SO), ('all_but_first_operand_is_other_input', OI)]
FIRST = [('set_first_operand_as_config_arg_type_string', STR), ('set_first_operand_as_config_arg_type_filename_or_std_descriptor', CI)]
PARALLELIZERS = [('if_seq_conc', 'INDIV_FILES', 'CONCATENATE', True), ('if_seq_adjm', 'INDIV_FILES', 'ADJ_LINES_MERGE', False),
                 ('cc_seq_conc', 'CONSEC_CHUNKS', 'CONCATENATE', True), ('cc_seq_adjm', 'CONSEC_CHUNKS', 'ADJ_LINES_MERGE', False),
                 ('rr_seq_conc', 'ROUND_ROBIN_PLAIN', 'CONCATENATE', True), ('rr_seq_adjm', 'ROUND_ROBIN_PLAIN', 'ADJ_LINES_MERGE', False),
                 ('rr_seq_adjs', 'ROUND_ROBIN_PLAIN', 'ADJ_LINES_SEQ', False), ('cc_seq_adjs', 'CONSEC_CHUNKS', 'ADJ_LINES_SEQ', False),
                 ('rr_seq_adjf', 'ROUND_ROBIN_PLAIN', 'ADJ_LINES_FUNC', None), ('cc_seq_adjf', 'CONSEC_CHUNKS', 'ADJ_LINES_FUNC', None)]
EXPECT_TAGS = ['all', 'last', 'first', 'both', 'implicit', 'no implicit', 'contained', 'not contained', 'appended', 'adjf', 'start', 'contain']
ASSUMPTIONS = ['each operand gets one role, or first the role of all and then another (the code assumes no other double assignment)',
               'building blocks for the first or last operand are used with at least one operand']
BOUNDS = {'quick': 'every role setter alone, and with its complement in both orders; up to 4 operands of any name of length <=1; up to 3 flags and options of any '
                   'name of length <=2 and lists of up to 3 names; up to 3 appended parallelizers',
          'thorough': 'up to 6 operands, 4 flags and options, 4 parallelizers'}


def tasks(tier):
    t = tier == 'thorough'
    n = 6 if t else 4
    out = [dict(fn='roles', params=dict(n=k), cost=10 * k) for k in range(n + 1)]
    out += [dict(fn='implicit', params={}), dict(fn='first', params=dict(n=4 if t else 3), cost=100)]
    out += [dict(fn='names', params=dict(n=k, m=m), cost=10 ** k) for k in range(5 if t else 4) for m in range(4)]
    out += [dict(fn='appended', params=dict(n=4 if t else 3), cost=100)]
    return out


def generator(inv):
    from pash_annotations.annotation_generation.annotation_generators.InputOutputInfoGenerator_Interface import InputOutputInfoGeneratorInterface

    class G(InputOutputInfoGeneratorInterface):
        def generate_info(self):
            pass
    return G(inv)


def absent(E, g, names):
    """Building blocks that no longer exist say nothing wrong."""
    if not all([hasattr(g, n) for n in names]):
        E.reach('absent')
        return True
    return False


def invocation(fol, ops):
    from pash_annotations.datatypes.CommandInvocationInitial import CommandInvocationInitial
    from pash_annotations.datatypes.BasicDatatypes import Operand
    return CommandInvocationInitial('cat', fol, [Operand(x) for x in ops])


def roles(E, p):
    from harness import iolib
    n = p['n']
    ops = [E.word('x%d' % i, ['-', 'f'], range(0, 2 if i == 0 else 1)) for i in range(n)]
    steps = [[a] for a in ALL]
    if n:
        steps += [[x] for x in BUTLAST + LAST + BUTFIRST + FIRST]
        for xs, ys in ((BUTLAST, LAST), (BUTFIRST, FIRST)):
            steps += [[x, y] for x in xs for y in ys] + [[y, x] for x in xs for y in ys]
        steps += [[x, y] for x in ALL for y in LAST + FIRST]
    seq = steps[E.choose('seq', len(steps))]
    want = [SI] * n
    for name, role in seq:
        for i in range(n):
            if name.startswith('all_operands') or name.startswith('set_all') or name.startswith('all_but_last') and i < n - 1 or \
                    name.startswith('only_last') and i == n - 1 or name.startswith('all_but_first') and i or name.startswith('set_first') and i == 0:
                want[i] = role
        E.reach('all' if 'all_operands' in name else 'last' if 'last' in name else 'first')
    if len(seq) == 2:
        E.reach('both')
    inv = invocation([], ops)
    g = generator(inv)
    if absent(E, g, [name for name, _ in seq]):
        return
    for name, role in seq:
        r = E.call(getattr(g, name))
        E.check(r.ok, name + ' raised')
        if not r.ok:
            return
    info = g.get_info()
    E.check(info.has_other_outputs() == (OO in want), 'has_other_outputs')
    app = g.get_cmd_inv_with_io(inv)
    E.observe('app', app)
    E.check(len(app.operand_list) == n, 'number of operands')
    for x, text, role in zip(app.operand_list, ops, want):
        E.check(iolib.is_arg(E, x, text, role) if role != CI else config(E, x, text), 'role of an operand')
    E.check(app.implicit_use_of_streaming_input is None and app.implicit_use_of_streaming_output is None, 'an implicit stream appeared')


def config(E, x, text):
    """Configuration input: '-' is not constrained."""
    return x.access.kind.name == CI and E.any([E.eq(text, '-'), E.eq(getattr(x, 'name', None), text)])


def implicit(E, p):
    from harness import iolib
    n = E.choose('n', 3)
    inv = invocation([], ['f', '-'][:n])
    g = generator(inv)
    i, o = E.choose('in', 5), E.choose('out', 4)
    if absent(E, g, ['set_implicit_use_of_stdin', 'set_implicit_use_of_stdout', 'if_no_operands_given_stdin_implicitly_used']):
        return
    if i:
        (lambda: g.set_implicit_use_of_stdin(), lambda: g.set_implicit_use_of_stdin(True), lambda: g.set_implicit_use_of_stdin(False),
         lambda: g.if_no_operands_given_stdin_implicitly_used())[i - 1]()
    if o:
        (lambda: g.set_implicit_use_of_stdout(), lambda: g.set_implicit_use_of_stdout(True), lambda: g.set_implicit_use_of_stdout(False))[o - 1]()
    app = g.get_cmd_inv_with_io(inv)
    E.observe('app', app)
    for x, want, w, acc in ((app.implicit_use_of_streaming_input, i in (1, 2) or i == 4 and n == 0, 'STDIN', SI),
                            (app.implicit_use_of_streaming_output, o in (1, 2), 'STDOUT', SO)):
        E.reach('implicit' if want else 'no implicit')
        E.check(iolib.implicit(E, x, w, acc) if want else x is None, 'implicit ' + w)


def names(E, p):
    """Queries about the flags and options of an invocation."""
    from pash_annotations.datatypes.BasicDatatypes import Flag, Option
    fol = []
    for i in range(p['n']):
        w = E.word('f%d' % i, ['-n', '--x'], range(0, 3 if i == 0 else 2))
        fol.append([Flag(w), Option(w, E.pick('arg%d' % i, ['-n', '--x', '']))][E.choose('k%d' % i, 2)])
    ns = [E.word('n%d' % i, ['-n', '--x'], range(0, 3 if i == 0 else 2)) for i in range(p['m'])]
    g = generator(invocation([Flag('-A')], ['a', 'b']))
    if absent(E, g, ['cmd_inv', 'get_flag_option_list_filtered_with', 'does_flag_option_list_contain_at_least_one_of', 'get_operand_list_length']):
        return
    g.cmd_inv = invocation(fol, ['a', 'b'][:E.choose('ops', 3)])
    before = list(ns)
    hits = [x for x in fol if E.any([E.eq(x.get_name(), n) for n in ns])]
    E.reach('contained' if hits else 'not contained')
    r = g.get_flag_option_list_filtered_with(ns)
    E.check(len(r) == len(hits) and E.all([E.same(a, b) for a, b in zip(r, hits)]), 'filtered list')
    E.check(g.does_flag_option_list_contain_at_least_one_of(ns) == (len(hits) > 0), 'contains at least one')
    E.check(g.get_operand_list_length() == len(g.cmd_inv.operand_list), 'number of operands')
    E.check(len(g.cmd_inv.flag_option_list) == p['n'] and E.same(ns, before), 'a query changed something')


def first(E, p):
    a = E.word('x', [], range(0, p['n'] + 1))
    b = E.word('y', [], range(0, 3))
    g = generator(invocation([], [a, 'z']))
    if absent(E, g, ['get_first_operand_name_as_string', 'does_first_operand_start_with', 'does_first_operand_contain']):
        return
    E.check(E.eq(g.get_first_operand_name_as_string(), a), 'first operand')
    s, c = a[:len(b)] == b, b in a
    if s:
        E.reach('start')
        E.check(g.does_first_operand_start_with(b), 'start')
    else:
        E.check(E.neg(g.does_first_operand_start_with(b)), 'no start')
    if c:
        E.reach('contain')
        E.check(g.does_first_operand_contain(b), 'contain')
    else:
        E.check(E.neg(g.does_first_operand_contain(b)), 'does not contain')


def appended(E, p):
    from pash_annotations.annotation_generation.annotation_generators.ParallelizabilityInfoGenerator_Interface import ParallelizabilityInfoGeneratorInterface

    class G(ParallelizabilityInfoGeneratorInterface):
        def generate_info(self):
            pass
    g = G(invocation([], []))
    want = []
    for i in range(E.choose('n', p['n'] + 1)):
        name, spl, agg, imp = PARALLELIZERS[E.choose('k%d' % i, len(PARALLELIZERS))]
        if absent(E, g, ['append_to_parallelizer_list_' + name]):
            return
        f = getattr(g, 'append_to_parallelizer_list_' + name)
        cmd = None
        if imp is None:
            E.reach('adjf')
            cmd, imp = E.pick('cmd%d' % i, ['agg -x', '']), E.boolean('imp%d' % i)
            r = E.call(f, cmd, imp)
        else:
            r = E.call(f)
        E.check(r.ok, name + ' raised')
        if not r.ok:
            return
        want.append((spl, agg, imp, cmd))
    comm = E.choose('comm', 2)
    if comm:
        g.set_commutative()
    info = g.get_info()
    E.check(info.is_commutative == (comm == 1) and not info.round_robin_compatible_with_cat, 'commutativity')
    E.check(len(info.parallelizer_list) == len(want), 'number of parallelizers')
    for a, (spl, agg, imp, cmd) in zip(info.parallelizer_list, want):
        E.reach('appended')
        m, s = a.get_mapper_spec(), a.get_aggregator_spec()
        E.check(a.get_splitter().kind.name == spl, 'splitter')
        E.check(s.get_kind().name == agg and E.eq(s.is_implemented, imp), 'aggregator')
        E.check([s.is_aggregator_spec_concatenate(), s.is_aggregator_spec_adj_lines_merge(), s.is_aggregator_spec_adj_lines_seq(),
                 s.is_aggregator_spec_adj_lines_func(), s.is_aggregator_spec_custom_2_ary(), s.is_aggregator_spec_custom_n_ary()] ==
                [agg == k for k in ('CONCATENATE', 'ADJ_LINES_MERGE', 'ADJ_LINES_SEQ', 'ADJ_LINES_FUNC', 'CUSTOM_2_ARY', 'CUSTOM_N_ARY')], 'aggregator queries')
        E.check(cmd is None or E.eq(getattr(s, 'cmd_inv_as_str', None), cmd), 'aggregator command')
        E.check(m.is_implemented and m.kind.name == 'SAME_AS_SEQ', 'mapper')
        E.check(a.get_info_mapper_aggregator() == 0 and a.info_splitter_mapper.name == 'NO_ADD_INPUT', 'additional information')
        E.check(E.eq(a.are_all_parts_implemented(), imp), 'implemented')
