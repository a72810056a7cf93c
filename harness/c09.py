"""C09: the streaming outputs are exactly where the utility writes its stream."""
from harness import iolib
from harness.iolib import SO

EXPECT_TAGS = ['operand STREAM_OUTPUT', 'option STREAM_OUTPUT', 'implicit', 'no implicit']
LEVEL = 'model_checking'
ASSUMPTIONS = ['the utilities behave as harness/iolib.py states (GNU coreutils, grep, sed, gawk, diffutils, findutils manuals)',
               'outside the domain: --help and --version; awk -i -o -d -p, grep -r -R, diff -r, rm -v, mv -v and --debug; operands after which further options are '
               'permuted; awk operands of the form var=value; uses the utility rejects']
BOUNDS = {'quick': 'every annotated utility; up to two flags and options in every combination and spelling (option arguments: \'-\' or any string of '
                   'length <=1); 0-3 operands (0-5 with at most one flag or option), each \'-\' or any string of length <=1'
                   '; up to four flags and options in the main orders with up to 3 operands, none with up to 8, with texts of length 2-3; 20 and 43 operands, three of them arbitrary',
          'thorough': 'up to three flags and options, 0-4 operands (0-6 with at most one flag or option)'}


def tasks(tier):
    return iolib.io_tasks('outputs', tier)


def outputs(E, p):
    c = iolib.covered(E, p)
    if c is None:
        return
    iolib.exactly(E, c, SO, 'streaming outputs')
    iolib.implicit_iff(E, c.app.implicit_use_of_streaming_output, c.spec.stdout, 'STDOUT', SO, 'standard output')
