"""C10: configuration operands are never confused with data."""
from harness import iolib
from harness.iolib import STR, CI

EXPECT_TAGS = ['argument string', 'file', 'operand CONFIG_INPUT']
LEVEL = 'model_checking'
ASSUMPTIONS = ['the utilities behave as harness/iolib.py states (GNU coreutils, grep, sed, gawk, diffutils, findutils manuals)',
               'outside the domain: --help and --version; awk -i -o -d -p, grep -r -R, diff -r, rm -v, mv -v and --debug; operands after which further options are '
               'permuted; awk operands of the form var=value; uses the utility rejects; sed -i.bak']
BOUNDS = {'quick': 'every annotated utility; up to two flags and options in every combination and spelling (option arguments: \'-\' or any string of '
                   'length <=1); 0-3 operands (0-5 with at most one flag or option), each \'-\' or any string of length <=2'
                   '; up to four flags and options in the main orders with up to 3 operands, none with up to 8, with texts of length 2-3; 20 and 43 operands, three of them arbitrary',
          'thorough': 'up to three flags and options, 0-4 operands (0-6 with at most one flag or option)'}


CMDS = ['grep', 'awk', 'sed', 'tr', 'custom_tr', 'seq', 'xargs', 'set_diff']


def tasks(tier):
    return iolib.io_tasks('config', tier, CMDS, extra=dict(l=2 if tier == 'quick' else 4))


def config(E, p):
    c = iolib.covered(E, p, oplen=p['l'], opnames=('-', '-e', '--'))
    if c is None:
        return
    iolib.exactly(E, c, CI, 'configuration files')
    for x, text, acc in zip(c.app.operand_list, c.ops, c.spec.ops):
        if acc == STR:
            E.reach('argument string')
            E.check(iolib.is_arg(E, x, text, STR), 'program text or parameter is not reported as the string it is')
        else:
            E.reach('file')
            E.check(iolib.is_arg(E, x, text, acc), 'an operand that names a file is not reported as such')
