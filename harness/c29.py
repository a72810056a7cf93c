"""C29: the access queries of an annotated invocation list exactly what has that access."""
LEVEL = 'model_checking'
KINDS = ['CONFIG_INPUT', 'STREAM_INPUT', 'CONTAINER_FOR_INPUT', 'EXCLUDES_FROM_INPUT', 'OTHER_INPUT', 'STREAM_OUTPUT', 'OTHER_OUTPUT']
QUERIES = [('get_operands_with_config_input', 'CONFIG_INPUT'), ('get_operands_with_stream_input', 'STREAM_INPUT'),
           ('get_operands_with_other_input', 'OTHER_INPUT'), ('get_operands_with_stream_output', 'STREAM_OUTPUT'),
           ('get_operands_with_other_output', 'OTHER_OUTPUT')]
EXPECT_TAGS = ['string', 'file', 'descriptor', 'option', 'flag', 'parsed'] + [q[0] for q in QUERIES] + ['get_options_with_other_output']
ASSUMPTIONS = []
BOUNDS = {'quick': 'up to 3 operands and up to 2 flags and options, each a string, a file of any name of length <=2 or a descriptor with any access kind; '
                   'every annotated utility with up to one flag or option and 3 operands (the same queries on what annotating it yields)',
          'thorough': 'up to 4 operands and 3 flags and options; two flags or options'}


def tasks(tier):
    from harness import iolib
    t = tier == 'thorough'
    out = [dict(fn='operands', params=dict(n=n), cost=10 ** n) for n in range(5 if t else 4)]
    out += [dict(fn='options', params=dict(n=n), cost=10 ** n) for n in range(4 if t else 3)]
    out += [dict(fn='wrappers', params={})]
    for c in iolib.IO_CMDS:
        for s in iolib.shapes(c, 2 if t else 1):
            out.append(dict(fn='annotated', params=dict(cmd=c, shape=s, nops=3, l=1), cost=20))
    return out


def element(E, n, length=2):
    """(value, its access or 'STR')"""
    from pash_annotations.datatypes.BasicDatatypes import ArgStringType, StdDescriptorEnum
    from pash_annotations.datatypes.BasicDatatypesWithIO import FileNameWithIOInfo, StdDescriptorWithIOInfo
    from pash_annotations.datatypes.AccessKind import AccessKind, AccessKindEnum
    k = E.choose(n + '.k', 3)
    name = E.word(n, ['-', 'f'], range(0, length + 1)) if k < 2 else None
    if k == 0:
        E.reach('string')
        return ArgStringType(name), 'STR'
    acc = E.pick(n + '.a', [getattr(AccessKindEnum, x) for x in KINDS])
    if k == 1:
        E.reach('file')
        return FileNameWithIOInfo(name, AccessKind(acc)), acc
    E.reach('descriptor')
    return StdDescriptorWithIOInfo(E.pick(n + '.s', [StdDescriptorEnum.STDIN, StdDescriptorEnum.STDOUT, StdDescriptorEnum.STDERR]), AccessKind(acc)), acc


def is_kind(E, acc, name):
    from pash_annotations.datatypes.AccessKind import AccessKindEnum
    return acc != 'STR' and E.eq(acc, getattr(AccessKindEnum, name))


def judge(E, inv, ops, accs, options, query=None):
    for q, k in QUERIES:
        want = [x for x, a in zip(ops, accs) if (k == 'CONFIG_INPUT' and a == 'STR') or (a != 'STR' and is_kind(E, a, k))]
        if not hasattr(inv, q):
            continue
        r = E.call(getattr(inv, q))
        E.check(r.ok, q + ' raised')
        if r.ok:
            if want:
                E.reach(q)
            E.check(len(r.value) == len(want) and E.all([E.same(a, b) for a, b in zip(r.value, want)]), q)
    want = [x for x, a in options if a != 'STR' and is_kind(E, a, 'OTHER_OUTPUT')]
    r = E.call(inv.get_options_with_other_output)
    E.check(r.ok, 'get_options_with_other_output raised')
    if r.ok:
        if want:
            E.reach('get_options_with_other_output')
        E.check(len(r.value) == len(want) and E.all([E.same(a, b) for a, b in zip(r.value, want)]), 'get_options_with_other_output')


def operands(E, p):
    from pash_annotations.datatypes.CommandInvocationWithIO import CommandInvocationWithIO
    ops = [element(E, 'x%d' % i, 2 if i == 0 else 0) for i in range(p['n'])]
    inv = CommandInvocationWithIO('c', [], [x for x, a in ops], None, None)
    judge(E, inv, [x for x, a in ops], [a for x, a in ops], [])
    E.check(len(inv.operand_list) == len(ops) and E.all([E.same(a, b[0]) for a, b in zip(inv.operand_list, ops)]), 'a query changed the operands')


def options(E, p):
    from pash_annotations.datatypes.BasicDatatypes import Flag
    from pash_annotations.datatypes.BasicDatatypesWithIO import OptionWithIO
    from pash_annotations.datatypes.CommandInvocationWithIO import CommandInvocationWithIO
    fol, opts = [], []
    for i in range(p['n']):
        if E.choose('flag%d' % i, 2):
            E.reach('flag')
            fol.append(Flag(E.pick('f%d' % i, ['-a', '-b'])))
        else:
            E.reach('option')
            x, a = element(E, 'o%d' % i, 2 if i == 0 else 0)
            o = OptionWithIO(E.pick('n%d' % i, ['-a', '-o']), x)
            E.check(E.same(o.get_arg(), x) and E.same(o.get_arg_with_ioinfo(), x), 'argument of an option')
            fol.append(o)
            opts.append((o, a))
    x, a = element(E, 'x', 0)
    inv = CommandInvocationWithIO('c', fol, [x], None, None)
    judge(E, inv, [x], [a], opts)
    E.check(len(inv.flag_option_list) == len(fol) and E.all([E.same(a, b) for a, b in zip(inv.flag_option_list, fol)]), 'a query changed the options')


def wrappers(E, p):
    """Adding an access kind to a name or descriptor keeps both."""
    from pash_annotations.datatypes import BasicDatatypes as B, BasicDatatypesWithIO as W
    from pash_annotations.datatypes.AccessKind import AccessKind, AccessKindEnum
    acc = AccessKind(E.pick('a', [getattr(AccessKindEnum, x) for x in KINDS]))
    w = E.word('w', ['-'], range(0, 5))
    f = W.get_from_original_filename_with_ioinfo(B.FileName(w), acc)
    E.check(isinstance(f, W.FileNameWithIOInfo) and E.eq(f.get_name(), w) and E.same(f.get_access(), acc) and E.same(f.access, acc), 'file name')
    d = E.pick('d', [B.StdDescriptorEnum.STDIN, B.StdDescriptorEnum.STDOUT, B.StdDescriptorEnum.STDERR])
    s = W.get_from_original_stddescriptor_with_ioinfo(B.StdDescriptor(d), acc)
    E.check(isinstance(s, W.StdDescriptorWithIOInfo) and E.eq(s.get_type(), d) and E.same(s.get_access(), acc), 'descriptor')
    if not all([hasattr(W, n) for n in ('OperandWithIO', 'make_stdin_with_access_stream_input', 'make_stdout_with_access_output')]) or \
            not all([hasattr(B, n) for n in ('get_stdin_fd', 'get_stdout_fd', 'get_stderr_fd')]):
        return
    o = W.OperandWithIO.make_operand_a_filename_with_access(B.Operand(w), acc)
    E.check(E.eq(o.get_name().get_name(), w) and E.same(o.get_name().get_access(), acc), 'operand')
    E.check(E.eq(B.Operand(w).to_arg_string_type().get_name(), w), 'argument string')
    i, u = W.make_stdin_with_access_stream_input(), W.make_stdout_with_access_output()
    E.check(i.get_type() is B.StdDescriptorEnum.STDIN and i.get_access().is_stream_input(), 'standard input')
    E.check(u.get_type() is B.StdDescriptorEnum.STDOUT and u.get_access().is_stream_output(), 'standard output')
    E.check([x().name.name for x in (B.get_stdin_fd, B.get_stdout_fd, B.get_stderr_fd)] == ['STDIN', 'STDOUT', 'STDERR'], 'descriptors')


def annotated(E, p):
    """What annotating a command yields answers the queries as its parts say."""
    from harness import iolib
    from pash_annotations.datatypes.BasicDatatypes import ArgStringType
    from pash_annotations.datatypes.BasicDatatypesWithIO import OptionWithIO
    c = iolib.covered(E, p, arglen=p['l'], oplen=p['l'])
    if c is None:
        return
    E.reach('parsed')
    acc = lambda x: 'STR' if isinstance(x, ArgStringType) else x.access.kind
    ops = c.app.operand_list
    judge(E, c.app, ops, [acc(x) for x in ops], [(x, acc(x.option_arg)) for x in c.app.flag_option_list if isinstance(x, OptionWithIO)])
