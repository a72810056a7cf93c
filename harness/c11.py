"""C11: effects beyond streams are always declared."""
from harness import iolib
from harness.iolib import OO, OI

EXPECT_TAGS = ['operand OTHER_OUTPUT', 'operand OTHER_INPUT', 'option OTHER_OUTPUT', 'option OTHER_INPUT', 'yes', 'no']
LEVEL = 'model_checking'
ASSUMPTIONS = ['the utilities behave as harness/iolib.py states (GNU coreutils, grep, sed, gawk, diffutils, findutils manuals)',
               'outside the domain: --help and --version; awk -i -o -d -p, grep -r -R, diff -r, rm -v, mv -v and --debug; operands after which further options are '
               'permuted; awk operands of the form var=value; uses the utility rejects']
BOUNDS = {'quick': 'every annotated utility; up to two flags and options in every combination and spelling (option arguments: \'-\' or any string of '
                   'length <=1); 0-3 operands (0-5 with at most one flag or option), each \'-\' or any string of length <=1'
                   '; up to four flags and options in the main orders with up to 3 operands, none with up to 8, with texts of length 2-3; 20 and 43 operands, three of them arbitrary',
          'thorough': 'up to three flags and options, 0-4 operands (0-6 with at most one flag or option)'}


def tasks(tier):
    return iolib.io_tasks('effects', tier)


def effects(E, p):
    c = iolib.covered(E, p)
    if c is None:
        return
    iolib.exactly(E, c, OO, 'other outputs')
    iolib.exactly(E, c, OI, 'other inputs')
    want = E.any([a == OO for a in c.spec.ops] + [E.eq(c.u.oaccess[it.name], OO) for it in c.items if it.kind == 'opt'])
    r = E.call(c.info.has_other_outputs)
    E.check(r.ok, 'has_other_outputs raised')
    if r.ok:
        if want:
            E.reach('yes')
            E.check(r.value, 'other outputs exist but are denied')
        else:
            E.reach('no')
            E.check(E.neg(r.value), 'other outputs are claimed where there are none')
