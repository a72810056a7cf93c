"""C07: unknown means no information, and annotating never raises."""
from harness import iolib
from harness.ref import U, UNKNOWN, Util, spellings

LEVEL = 'model_checking'
EXPECT_TAGS = ['information', 'no information', 'parallelizability', 'no parallelizability', 'unknown command', 'refused', 'applied']
ASSUMPTIONS = ['command names are plain words (letters, digits, _ . + - /)',
               'invocations the utility itself rejects for other reasons are only required not to raise']
BOUNDS = {'quick': 'every annotated command and an unknown one with 0-2 arbitrary words (any spelling, attached arguments, strings of length <=3, '
                   'or two of length <=2); documented refusals with up to two flags and options in every spelling and up to five operands (four flags and options with three operands, none with eight); unknown '
                   'command names of length 1-6 over letters, digits, _ . - / (and systematic variations of the annotated names, also paths and names of hundreds of letters) with up to two operands',
          'thorough': 'words of length <=4, two of <=3 and <=2, three of <=1; up to three flags and options; names of length <=9'}
NAMECHARS = 'abcdefghijklmnopqrstuvwxyzABCXYZ0123456789_.-/'


def _near():
    out = ['uniqq', 'gre', 'None', 'Interface', '_Interface', 'Generator_Interface', 'AltBigramsAux']
    for c in iolib.IO_CMDS + iolib.NO_IO:
        cls = ''.join(x.capitalize() for x in c.split('_'))
        out += [c.upper(), c.capitalize(), cls, c + '2', c + '_', 'x' + c, c + '.py', './' + c, '/usr/bin/' + c, '../data/' + c, c + '.json/x', c + '/', c * 100, c.replace('_', '-'),
                c.replace('_', ''), 'g' + c, c[:-1]]
    known = set(iolib.IO_CMDS + iolib.NO_IO)
    return [n for n in dict.fromkeys(out) if n not in known]


NEAR = _near()


def tasks(tier):
    t = tier == 'thorough'
    out = []
    for c in sorted(U) + UNKNOWN:
        cost = 1 + len(spellings(U.get(c, Util())))
        for raw in ([(3,), (2, 1) if c == 'tr' else (2, 2)] if not t else [(4,), (3, 2), (1, 1, 1)]):
            out.append(dict(fn='anything', params=dict(cmd=c, raw=list(raw)), cost=cost * 5 ** len(raw)))
    out += iolib.io_tasks('refusals', tier, ['uniq', 'mv', 'comm', 'wc', 'set_diff', 'sed', 'bigram_aux_map', 'bigram_aux_reduce', 'export'],
                          nops=(4, 6))
    for lo in range(1, 7 if not t else 10):
        out.append(dict(fn='unknown', params=dict(lo=lo), cost=10 * lo))
    return out


def ask(E, inv):
    from pash_annotations.annotation_generation.AnnotationGeneration import get_input_output_info_from_cmd_invocation as io
    from pash_annotations.annotation_generation.AnnotationGeneration import get_parallelizability_info_from_cmd_invocation as para
    from pash_annotations.annotation_generation.datatypes.InputOutputInfo import InputOutputInfo
    from pash_annotations.annotation_generation.datatypes.ParallelizabilityInfo import ParallelizabilityInfo
    a, b = E.call(io, inv), E.call(para, inv)
    E.check(a.ok, 'asking for input/output information raised')
    E.check(b.ok, 'asking for parallelizability information raised')
    if a.ok:
        E.check(a.value is None or isinstance(a.value, InputOutputInfo), 'neither information nor nothing (input/output)')
        E.reach('no information' if a.value is None else 'information')
    if b.ok:
        E.check(b.value is None or isinstance(b.value, ParallelizabilityInfo), 'neither information nor nothing (parallelizability)')
        E.reach('no parallelizability' if b.value is None else 'parallelizability')
    E.observe('kinds', [a.value is None, b.value is None])
    return a, b


def vocab(u):
    v = spellings(u)
    return v + [s + '=q' for s in v if s in u.co_att and s[:2] == '--'][:2] + ['--', '-', "\\n", '[:space:]', 's/a/b/', '1,3d', '\\']


def anything(E, p):
    """Whatever the words, annotating and applying do not raise."""
    from pash_annotations.parser.parser import parse
    u = U.get(p['cmd'], Util())
    n = E.choose('n', len(p['raw']) + 1) if len(p['raw']) == 1 else len(p['raw'])
    ws = [E.word('w%d' % i, vocab(u), range(0, p['raw'][i] + 1)) for i in range(n)]
    inv = parse(E.command([p['cmd']] + ws))
    a, b = ask(E, inv)
    if p['cmd'] in UNKNOWN:
        E.reach('unknown command')
        E.check(a.value is None and b.value is None, 'information for an unknown command')
    if a.ok and a.value is not None:
        r = E.call(a.value.apply_input_output_info_to_command_invocation, inv)
        E.check(r.ok, 'applying the information raised')
        E.reach('applied')
        E.check(E.call(a.value.has_other_outputs).ok, 'has_other_outputs raised')
    if b.ok and b.value is not None:
        E.check(E.call(b.value.get_inferred_parallelizer_list).ok, 'asking for the inferred parallelizers raised')


def refusals(E, p):
    """Invocations an annotation does not cover get no input/output information."""
    c = iolib.case(E, p)
    if c is None:
        return
    if c.spec == 'none':
        E.reach('refused')
        E.check(c.info is None, 'information for an invocation that is not covered')
    elif c.spec != 'any':
        E.check(c.info is not None, 'no information for a covered invocation')


def unknown(E, p):
    """Any command name that is not annotated."""
    from pash_annotations.parser.parser import parse
    near = NEAR if p['lo'] == 1 else []
    name = E.word('name', near, (p['lo'],), NAMECHARS)
    E.assume(E.neg(E.any([E.eq(name, c) for c in iolib.IO_CMDS + iolib.NO_IO])))
    ws = [E.word('w0', ['-a'], (0, 1)), 'f'][:E.choose('n', 3)]
    r = E.call(parse, E.command([name] + ws))
    E.check(r.ok, 'parse raised')
    if not r.ok:
        return
    E.reach('unknown command')
    a, b = ask(E, r.value)
    E.check(a.ok and a.value is None, 'input/output information for an unknown command')
    E.check(b.ok and b.value is None, 'parallelizability information for an unknown command')
