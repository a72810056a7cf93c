"""C13: files named in options get their documented access kind."""
from harness import iolib
from harness.ref import U

EXPECT_TAGS = ['CONFIG_INPUT', 'CONTAINER_FOR_INPUT', 'EXCLUDES_FROM_INPUT', 'OTHER_INPUT', 'STREAM_INPUT', 'STREAM_OUTPUT',
               'OTHER_OUTPUT', 'string']
LEVEL = 'model_checking'
ASSUMPTIONS = ['the utilities behave as harness/iolib.py states (GNU coreutils, grep, sed, gawk, diffutils, findutils manuals)',
               'outside the domain: --help and --version; awk -i -o -d -p, grep -r -R, diff -r, rm -v, mv -v and --debug; operands after which further options are '
               'permuted; awk operands of the form var=value; uses the utility rejects']
BOUNDS = {'quick': 'every annotated utility; up to two flags and options in every combination and spelling (option arguments: \'-\' or any string of '
                   'length <=1); 0-3 operands (0-5 with at most one flag or option), each \'-\' or any string of length <=1'
                   '; up to four flags and options in the main orders with up to 3 operands, none with up to 8, with texts of length 2-3; 20 and 43 operands, three of them arbitrary',
          'thorough': 'up to three flags and options, 0-4 operands (0-6 with at most one flag or option)'}


def tasks(tier):
    cmds = [c for c in iolib.IO_CMDS if c in U and U[c].opts]
    return iolib.io_tasks('arguments', tier, cmds, nops=(1, 2), extra=dict(l=3 if tier == 'quick' else 6))


def arguments(E, p):
    if 'o' not in p['shape']:
        return
    c = iolib.covered(E, p, arglen=p['l'], argvocab=('-', '--', 'a b', '1'))
    if c is None:
        return
    for x, it in iolib.options(E, c):
        acc = c.u.oaccess[it.name]
        for a in ('CONFIG_INPUT', 'CONTAINER_FOR_INPUT', 'EXCLUDES_FROM_INPUT', 'OTHER_INPUT', 'STREAM_INPUT', 'STREAM_OUTPUT',
                  'OTHER_OUTPUT', None):
            if E.eq(acc, a):
                E.reach(a or 'string')
                E.check(iolib.is_arg(E, x, it.arg, a or iolib.STR), 'an option argument (%s) is reported differently' % (a or 'string'))
