"""C12: applying input/output information changes nothing but adds access kinds."""
from harness import iolib
from harness.iolib import SI, SO, STR
from harness.ref import U, Util, spellings

LEVEL = 'model_checking'
EXPECT_TAGS = ['flag', 'option', 'operand', 'dash input', 'dash output', 'dash string', 'not annotated'] + \
    ['STREAM_INPUT', 'CONFIG_INPUT', 'OTHER_INPUT', 'CONTAINER_FOR_INPUT', 'EXCLUDES_FROM_INPUT', 'STREAM_OUTPUT', 'OTHER_OUTPUT', 'STR']
ASSUMPTIONS = ["for accesses other than streaming ones the name '-' may stay a file name or become a standard stream of the same direction"]
BOUNDS = {'quick': 'every annotated command: up to two flags and options in every spelling (arguments of length <=2) and up to three operands of '
                   'length <=2 (also \'-\', \'--\' and any spelling for the last two); and InputOutputInfo objects built directly: up to one flag, one option and '
                   'three operands (two arguments, or three operands alone), each with every access kind or none, names of length <=2 or \'-\''
                   '; up to four flags and options in the main orders with up to 3 operands, none with up to 8, with texts of length 2-3; 20 and 43 operands, three of them arbitrary',
          'thorough': 'up to three flags and options; names of length <=3'}
ACCESS = ['STREAM_INPUT', 'CONFIG_INPUT', 'OTHER_INPUT', 'CONTAINER_FOR_INPUT', 'EXCLUDES_FROM_INPUT', 'STREAM_OUTPUT', 'OTHER_OUTPUT', 'STR']


def tasks(tier):
    t = tier == 'thorough'
    out = iolib.io_tasks('applied', tier, nops=(2, 3), extra=dict(l=3 if t else 2))
    for nf in (0, 1):
        for no in (0, 1):
            for n in range(4):
                if no + n > 2 and not (no == 0 and nf == 0) and not t:
                    continue
                out.append(dict(fn='typers', params=dict(nf=nf, no=no, n=n, l=3 if t else 2), cost=8 ** (no + n)))
    return out


def kept(E, inv, app):
    """The command line is the same, flags are flags, options are options."""
    from pash_annotations.datatypes.BasicDatatypes import Flag, Option
    from pash_annotations.datatypes.BasicDatatypesWithIO import OptionWithIO
    E.check(E.eq(app.cmd_name, inv.cmd_name), 'command name')
    E.check(len(app.flag_option_list) == len(inv.flag_option_list), 'number of flags and options')
    E.check(len(app.operand_list) == len(inv.operand_list), 'number of operands')
    for a, b in zip(app.flag_option_list, inv.flag_option_list):
        E.check(E.eq(a.get_name(), b.get_name()), 'name of a flag or option')
        if isinstance(b, Flag):
            E.reach('flag')
            E.check(isinstance(a, Flag), 'a flag is no longer one')
        else:
            E.reach('option')
            E.check(isinstance(a, OptionWithIO), 'an option is no longer one')
            if isinstance(a, OptionWithIO):
                text(E, a.option_arg, b.option_arg)
    for a, b in zip(app.operand_list, inv.operand_list):
        E.reach('operand')
        text(E, a, b.name)


def text(E, x, name):
    """x reports this very name, or the standard stream '-' stands for."""
    from pash_annotations.datatypes.BasicDatatypes import ArgStringType, StdDescriptor, StdDescriptorEnum, FileName
    if isinstance(x, ArgStringType):
        E.check(E.eq(x.name, name), 'text of an argument string')
        if E.eq(name, '-'):
            E.reach('dash string')
        return
    acc = x.access.kind.name
    if isinstance(x, StdDescriptor):
        E.check(E.eq(name, '-'), 'a name became a standard stream')
        inp = E.any([E.eq(acc, a) for a in ACCESS if a.endswith('INPUT')])
        if inp:
            E.reach('dash input')
            E.check(x.name is StdDescriptorEnum.STDIN, "'-' that is read is not standard input")
        else:
            E.reach('dash output')
            E.check(x.name is StdDescriptorEnum.STDOUT, "'-' that is written is not standard output")
        return
    E.check(isinstance(x, FileName), 'neither file name, standard stream nor string')
    E.check(E.eq(x.name, name), 'a name changed')
    E.check(E.neg(E.all([E.eq(name, '-'), E.any([E.eq(acc, SI), E.eq(acc, SO)])])), "'-' that stands for a stream is reported as a file")


def applied(E, p):
    c = iolib.case(E, p, arglen=p['l'], oplen=p['l'], argvocab=('-', '--'), opnames=('-', '--') + tuple(spellings(U.get(p['cmd'], Util()))[:2]))
    if c is None:
        return
    if c.info is None:
        E.reach('not annotated')
        return
    r = E.call(c.info.apply_input_output_info_to_command_invocation, c.inv)
    E.check(r.ok, 'applying raised')
    if r.ok:
        E.observe('app', r.value)
        kept(E, c.inv, r.value)
        for w, x in zip(c.ops, c.inv.operand_list):
            E.check(E.eq(x.name, w), 'operand')


def typers(E, p):
    """Every access kind in every position, whatever the command."""
    from pash_annotations.annotation_generation.datatypes.InputOutputInfo import InputOutputInfo
    from pash_annotations.datatypes.AccessKind import AccessKind, AccessKindEnum
    from pash_annotations.datatypes.BasicDatatypes import Flag, Option, Operand, WhichClassForArg, StdDescriptorEnum
    from pash_annotations.datatypes.BasicDatatypesWithIO import StdDescriptorWithIOInfo, FileNameWithIOInfo
    from pash_annotations.datatypes.CommandInvocationInitial import CommandInvocationInitial

    def typer(name):
        k = ACCESS[E.choose(name, len(ACCESS))]
        return k, (WhichClassForArg.ARGSTRING, None) if k == STR else (WhichClassForArg.FILESTD, AccessKind(getattr(AccessKindEnum, k)))
    word = lambda n: E.word(n, ['-', '--'], range(0, p['l'] + 1))
    fol, ft, want = [], [], []
    if p['nf']:
        fol.append(Flag(E.word('flag', ['-a'], (1, 2))))
        ft.append((WhichClassForArg.PLAINSTRING, None))
    for i in range(p['no']):
        k, t = typer('ot%d' % i)
        fol.append(Option(E.word('opt%d' % i, ['--o'], (1, 2)), word('oa%d' % i)))
        ft.append(t)
        want.append(k)
    ops = [Operand(word('x%d' % i)) for i in range(p['n'])]
    ot = [typer('xt%d' % i) for i in range(p['n'])]
    imp = E.choose('imp', 3) if p['n'] + p['no'] < 2 else p['n'] % 3
    i_in = [None, StdDescriptorWithIOInfo(StdDescriptorEnum.STDIN, AccessKind(AccessKindEnum.STREAM_INPUT)),
            FileNameWithIOInfo('in', AccessKind(AccessKindEnum.STREAM_INPUT))][imp]
    i_out = [StdDescriptorWithIOInfo(StdDescriptorEnum.STDOUT, AccessKind(AccessKindEnum.STREAM_OUTPUT)), None,
             FileNameWithIOInfo('out', AccessKind(AccessKindEnum.STREAM_OUTPUT))][imp]
    info = InputOutputInfo(ft, len(ops), i_in, i_out)
    info.operand_list_typer = [t for k, t in ot]
    inv = CommandInvocationInitial(E.word('cmd', ['cat'], (1, 2)), fol, ops)
    r = E.call(info.apply_input_output_info_to_command_invocation, inv)
    E.check(r.ok, 'applying raised')
    if not r.ok:
        return
    app = r.value
    E.observe('app', app)
    kept(E, inv, app)
    args = [x.option_arg for x in app.flag_option_list[p['nf']:]] + list(app.operand_list)
    names = [x.option_arg for x in fol[p['nf']:]] + [x.name for x in ops]
    for x, name, k in zip(args, names, want + [k for k, t in ot]):
        E.reach(k)
        E.check(iolib.is_arg(E, x, name, k), 'an argument of kind %s is reported differently' % k)
    E.check(E.same(app.implicit_use_of_streaming_input, i_in), 'implicit input')
    E.check(E.same(app.implicit_use_of_streaming_output, i_out), 'implicit output')
