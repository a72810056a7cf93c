"""C08: the streaming inputs are exactly the data the utility reads."""
from harness import iolib
from harness.iolib import SI

EXPECT_TAGS = ['operand STREAM_INPUT', 'option STREAM_INPUT', 'implicit', 'no implicit', 'double dash', 'assignment']
LEVEL = 'model_checking'
ASSUMPTIONS = ['the utilities behave as harness/iolib.py states (GNU coreutils, grep, sed, gawk, diffutils, findutils manuals)',
               'outside the domain: --help and --version; awk -i -o -d -p, grep -r -R, diff -r, rm -v, mv -v and --debug; operands after which further options are '
               'permuted; awk operands of the form var=value; uses the utility rejects; sed -i.bak and other attached optional arguments'               '']
BOUNDS = {'quick': 'every annotated utility; up to two flags and options in every combination and spelling (option arguments: \'-\' or any string of '
                   'length <=1); 0-3 operands (0-5 with at most one flag or option), each \'-\' or any string of length <=1'
                   '; up to four flags and options in the main orders with up to 3 operands, none with up to 8, with texts of length 2-3; 20 and 43 operands, three of them arbitrary',
          'thorough': 'up to three flags and options, 0-4 operands (0-6 with at most one flag or option)'}


def tasks(tier):
    return iolib.io_tasks('inputs', tier) + [dict(fn='dashdash', params=dict(cmd=c), cost=5)
                                             for c in ('cat', 'cut', 'head', 'tail', 'wc', 'sort', 'comm', 'uniq', 'grep', 'sed', 'diff')] + \
        [dict(fn='assignment', params={}, cost=5)]


def inputs(E, p):
    c = iolib.covered(E, p)
    if c is None:
        return
    iolib.exactly(E, c, SI, 'streaming inputs')
    iolib.implicit_iff(E, c.app.implicit_use_of_streaming_input, c.spec.stdin, 'STDIN', SI, 'standard input')


def dashdash(E, p):
    """The word -- only ends the options; it names no file."""
    from pash_annotations.parser.parser import parse
    from pash_annotations.annotation_generation.AnnotationGeneration import get_input_output_info_from_cmd_invocation as io
    cmd = p['cmd']
    f = E.word('x', ['file'], (1, 2))
    words = ['--'] + (['pat'] if cmd in ('grep', 'sed') else []) + [f] + (['other'] if cmd in ('comm', 'diff') else [])
    r = E.call(parse, E.command([cmd] + words))
    E.check(r.ok, 'parse raised')
    if not r.ok:
        return
    info = E.call(io, r.value)
    E.check(info.ok, 'annotating raised')
    E.reach('double dash')
    if info.ok and info.value is not None:
        app = info.value.apply_input_output_info_to_command_invocation(r.value)
        bad = [x for x in app.operand_list if iolib.has_access(x, SI) and E.eq(x.name, '--')]
        E.check_known('double-dash', True, len(bad) == 0, 'the word -- that ends the options is reported as an input file')


def assignment(E, p):
    """An awk operand of the form var=value is an assignment; with no file besides, awk reads standard input."""
    from pash_annotations.parser.parser import parse
    from pash_annotations.annotation_generation.AnnotationGeneration import get_input_output_info_from_cmd_invocation as io
    from pash_annotations.datatypes.BasicDatatypes import ArgStringType
    v = E.pick('var', ['x', 'OFS', '_y1']) + '=' + E.word('val', ['-'], (0, 1))
    files = ['f'][:E.choose('files', 2)]
    inv = parse(E.command(['awk', '{print x}', v] + files))
    info = E.call(io, inv)
    E.check(info.ok and info.value is not None, 'no information')
    if not info.ok or info.value is None:
        return
    E.reach('assignment')
    app = info.value.apply_input_output_info_to_command_invocation(inv)
    E.check_known('awk-assignment', True, not iolib.has_access(app.operand_list[1], SI), 'an assignment operand is reported as an input file')
    if not files:
        E.check_known('awk-assignment', True, app.implicit_use_of_streaming_input is not None, 'standard input is not reported')
