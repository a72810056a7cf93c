"""C06: printing a parsed invocation and parsing it again gives the same invocation."""
from harness.ref import U, UNKNOWN, Util, spellings
from harness.c01 import words

LEVEL = 'model_checking'
EXPECT_TAGS = ['flag', 'option', 'operand']
ASSUMPTIONS = ['words are written out properly quoted (splitting is C05)']
BOUNDS = {'quick': 'as for C01: every annotated command and an unknown one; one word of length <=4 or any spelling, two words of '
                   'length <=3 and <=1 or any spelling, three words from the reduced vocabulary or of length <=1, five words from the reduced vocabulary, a word of length 4-12 starting with no dash between two of these',
          'thorough': 'as for C01 thorough with one letter less'}


def tasks(tier):
    out = []
    for c in sorted(U) + UNKNOWN:
        for raw in ([(4,), (3, 1), (1, 1, 1), (0, 0, 0, 0, 0)] if tier == 'quick' else [(5,), (4, 2), (2, 2, 2), (1, 1, 1, 1)]):
            out.append(dict(fn='stable', params=dict(cmd=c, raw=list(raw)), cost=6 ** len(raw) * (1 + len(spellings(U.get(c, Util()))))))
        out.append(dict(fn='stable', params=dict(cmd=c, raw=[0, 'word', 0]), cost=50))
    return out


def stable(E, p):
    from pash_annotations.parser.parser import parse
    from pash_annotations.datatypes.BasicDatatypes import Flag, Option
    u = U.get(p['cmd'], Util())
    ws = words(E, u, p['raw'])
    r = E.call(parse, E.command([p['cmd']] + ws))
    E.check(r.ok, 'parse raised')
    if not r.ok:
        return
    inv = r.value
    out = [inv.cmd_name]
    for it in inv.flag_option_list:
        if isinstance(it, Flag):
            E.reach('flag')
            out.append(it.get_name())
        else:
            E.reach('option')
            out.append(it.get_name())
            out.append(it.get_arg())
    for o in inv.operand_list:
        E.reach('operand')
        out.append(o.get_name())
    r2 = E.call(parse, E.command(out))
    E.check(r2.ok, 'the printed line is refused')
    if r2.ok:
        E.observe('again', r2.value)
        E.check(E.same(r2.value, inv), 'the printed line parses differently')
        E.check(r2.value == inv, 'the printed line parses differently (==)')
