"""Reference for input/output annotations, from the utilities' manuals, and the invocations the C08-C13 checks share."""
from harness.ref import U, Util, spellings

SI, SO, OI, OO, CI, STR = 'STREAM_INPUT', 'STREAM_OUTPUT', 'OTHER_INPUT', 'OTHER_OUTPUT', 'CONFIG_INPUT', 'STR'
FREE = 'FREE'       # not constrained

# commands with input/output annotations
IO_CMDS = ['alt_bigram_aux_reduce', 'alt_bigrams_aux', 'awk', 'bigrams_aux', 'cat', 'col', 'comm', 'custom_sort', 'custom_tr',
           'cut', 'diff', 'grep', 'head', 'mkfifo', 'mv', 'rm', 'sed', 'seq', 'set_diff', 'sort', 'tail', 'tee', 'test_one',
           'test_two', 'tr', 'uniq', 'wc', 'xargs']
NO_IO = ['bigram_aux_map', 'bigram_aux_reduce', 'export']
# flags whose effect on the streams is outside the checks (they replace or add to what the utility does)
EXCLUDED = {'*': ['--help', '--version'], 'awk': ['-h', '-V', '-i', '-o', '-d', '-p'], 'grep': ['-V', '-r', '-R'],
            'sort': [], 'col': ['-H', '-V'], 'diff': ['-v', '-r'], 'sed': [], 'rm': ['-v'], 'mv': ['-v', '--debug'], 'xargs': []}


class Spec:
    def __init__(self, ops, stdin, stdout):
        self.ops, self.stdin, self.stdout = ops, stdin, stdout


def has(E, items, *names):
    return E.any([E.eq(it.name, n) for it in items for n in names])


def spec(E, cmd, items, n):
    """What the utility does with n operands: 'none' if it must get no information, 'any' if this is no valid use of it."""
    if cmd in ('cat', 'cut', 'head', 'tail'):
        return Spec([SI] * n, n == 0, True)
    if cmd == 'wc':
        if has(E, items, '--files0-from'):
            return 'none'
        return Spec([SI] * n, n == 0, True)
    if cmd in ('sort', 'custom_sort'):
        out = E.neg(has(E, items, '-o', '-c', '-C'))
        if has(E, items, '--files0-from'):
            return 'any' if n else Spec([], False, out)
        return Spec([SI] * n, n == 0, out)
    if cmd in ('grep', 'awk', 'sed'):
        if cmd == 'sed' and has(E, items, '-i'):
            return 'none'
        out = E.neg(has(E, items, '-q')) if cmd == 'grep' else True
        given = has(E, items, '-e', '-f', '-E') if cmd == 'awk' else has(E, items, '-e', '-f')
        if given:
            return Spec([SI] * n, n == 0, out)
        if n == 0:
            return 'any'
        return Spec([STR] + [SI] * (n - 1), n == 1, out)
    if cmd == 'comm':
        return Spec([SI] * 2, False, True) if n == 2 else 'none'
    if cmd == 'diff':
        if has(E, items, '--from-file', '--to-file'):
            return Spec([SI] * n, False, True) if n else 'any'
        return Spec([SI] * 2, False, True) if n == 2 else 'any'
    if cmd == 'set_diff':
        return Spec([CI], True, True) if n == 1 else 'none'
    if cmd in ('tr', 'custom_tr'):
        return Spec([STR] * n, True, True) if 1 <= n <= 2 else 'any'
    if cmd == 'seq':
        return Spec([STR] * n, False, True) if 1 <= n <= 3 else 'any'
    if cmd == 'xargs':
        # with -a the items come from that file; whether the commands run then read standard input is not known
        return Spec([STR] * n, FREE if has(E, items, '-a') else True, True)
    if cmd == 'tee':
        return Spec([SO] * n, True, True)
    if cmd == 'uniq':
        if n > 2:
            return 'none'
        return Spec([SI, SO][:n], n == 0, n < 2)
    if cmd in ('rm', 'mkfifo'):
        return Spec([OO] * n, False, False)
    if cmd == 'mv':
        ts = E.count([E.eq(it.name, '-t') for it in items])
        if ts == 0:
            return Spec([OI] * (n - 1) + [OO], False, False) if n >= 2 else 'any'
        if ts == 1:
            return Spec([OI] * n, False, False) if n else 'any'
        return 'none'
    if cmd == 'alt_bigram_aux_reduce':
        return Spec([SI] * n, False, True)
    if cmd in ('alt_bigrams_aux', 'bigrams_aux', 'col', 'test_one', 'test_two'):
        return Spec([], True, True) if n == 0 else 'any'
    return 'none'


class Item:
    def __init__(self, kind, name, arg):
        self.kind, self.name, self.arg = kind, name, arg


def excluded(cmd):
    return EXCLUDED['*'] + EXCLUDED.get(cmd, [])


def lengths(n):
    return range(0, n + 1) if n >= 0 else (2, 3) if n == -1 else range(4, 13)


def items_of(E, cmd, shape, arglen=1, argvocab=('-',)):
    """Flags and options in the given shape ('f'/'o' string), each in any documented spelling: (words, reference items)."""
    u = U.get(cmd, Util())
    ex = excluded(cmd)
    words, items = [], []
    for i, k in enumerate(shape):
        if k == 'f':
            w = E.pick('f%d' % i, [s for s in sorted(u.cf) if u.cf[s] not in ex])
            words.append(w)
            items.append(Item('flag', u.cf[w], None))
        else:
            w = E.pick('o%d' % i, [s for s in sorted(u.co) if u.co[s] not in ex])
            a = E.word('a%d' % i, argvocab, lengths(arglen))
            words += [w, a]
            items.append(Item('opt', u.co[w], a))
    return words, items


def operands_of(E, n, length=1, names=('-',)):
    """n operands with arbitrary names; the first does not look like a flag or an option."""
    out = []
    for i in range(n):
        w = E.word('x%d' % i, names, lengths(length))
        if i == 0 and length < 0:
            E.assume(E.neg(E.eq(w[:1], '-')))
        elif i == 0:
            E.assume(E.any([E.eq(w[:1], c) for c in ['']] + [E.neg(E.eq(w[:1], '-')), E.eq(w, '-')]))
        out.append(w)
    return out


def shapes(cmd, upto):
    u = U.get(cmd, Util())
    ex = excluded(cmd)
    ks = ('f' if any(v not in ex for v in u.cf.values()) else '') + ('o' if any(v not in ex for v in u.co.values()) else '')
    out = ['']
    lev = ['']
    for _ in range(upto):
        lev = [s + k for s in lev for k in ks]
        out += lev
    return out


def io_tasks(fn, tier, cmds=None, quick=2, thorough=3, nops=(3, 4), extra=None):
    out = []
    for c in cmds or IO_CMDS:
        u = U.get(c, Util())
        for s in shapes(c, quick if tier == 'quick' else thorough):
            n = nops[0] if tier == 'quick' else nops[1]
            p = dict(cmd=c, shape=s, nops=n + 2 if len(s) < 2 and n > 1 else n)
            p.update(extra or {})
            out.append(dict(fn=fn, params=p, cost=(1 + len(u.cf) * s.count('f') + 2 * len(u.co) * s.count('o')) ** max(1, len(s))))
        # long lines: more flags, options and operands, longer texts, but no '-'
        ks = ''.join(shapes(c, 1))
        for s in {'': [''], 'f': ['', 'ffff'], 'o': ['', 'oooo'], 'fo': ['', 'fff', 'ooo', 'foff', 'offo']}[ks]:
            p = dict(extra or {}, cmd=c, shape=s, nops=3 if s else 8, long=True)
            out.append(dict(fn=fn, params=p, cost=500 * len(s)))
        # long texts
        for s in ('', 'o') if 'o' in ks else ('',):
            out.append(dict(fn=fn, params=dict(extra or {}, cmd=c, shape=s, nops=2, long=2), cost=20))
        # many operands
        for s in [x for x in ('', 'f', 'o') if x in ks]:
            out.append(dict(fn=fn, params=dict(extra or {}, cmd=c, shape=s, nops=[17, 40], many=True), cost=30))
    return out


class Case:
    pass


def case(E, p, arglen=1, oplen=1, argvocab=('-',), opnames=('-',)):
    """Parse and annotate an invocation; None if it is no valid use of the utility."""
    from pash_annotations.parser.parser import parse
    from pash_annotations.annotation_generation.AnnotationGeneration import get_input_output_info_from_cmd_invocation as io
    c = Case()
    c.cmd = p['cmd']
    if p.get('long'):
        arglen, oplen, argvocab, opnames = -int(p['long']), -int(p['long']), (), ()
    c.u = U.get(c.cmd, Util())
    iw, c.items = items_of(E, c.cmd, p['shape'], arglen, argvocab)
    if p.get('many'):
        # an arbitrary word at both ends and in the middle
        n = p['nops'][E.choose('n', len(p['nops']))]
        c.ops = operands_of(E, 3, oplen, opnames)
        c.ops = c.ops[:1] + ['g%d' % i for i in range(n - n // 2)] + c.ops[1:2] + ['h%d' % i for i in range(n // 2)] + c.ops[2:]
    else:
        c.ops = operands_of(E, E.choose('n', p['nops'] + 1), oplen, opnames)
    c.words = iw + c.ops
    c.spec = spec(E, c.cmd, c.items, len(c.ops))
    c.inv = parse(E.command([c.cmd] + c.words))
    E.check(len(c.inv.operand_list) == len(c.ops) and len(c.inv.flag_option_list) == len(c.items), 'parsed differently')
    if not (len(c.inv.operand_list) == len(c.ops) and len(c.inv.flag_option_list) == len(c.items)):
        return None
    r = E.call(io, c.inv)
    E.check(r.ok, 'annotating raised')
    c.info = r.value
    return c


def covered(E, p, **kw):
    """The case and the applied information, for invocations the annotation must cover; None otherwise."""
    c = case(E, p, **kw)
    if c is None or isinstance(c.spec, str):
        return None
    E.check(c.info is not None, 'no input/output information for a covered invocation')
    if c.info is None:
        return None
    r = E.call(c.info.apply_input_output_info_to_command_invocation, c.inv)
    E.check(r.ok, 'applying the information raised')
    if not r.ok:
        return None
    c.app = r.value
    E.observe('app', c.app)
    return c


def std(E, text, access):
    """Does the name stand for a stream under this access?"""
    return E.all([E.eq(text, '-'), access in (SI, SO)])


def is_arg(E, x, text, access):
    """x reports `text` with the given access ('STR': a plain string)."""
    from pash_annotations.datatypes.BasicDatatypes import ArgStringType, StdDescriptor, FileName, StdDescriptorEnum
    from pash_annotations.datatypes.BasicDatatypesWithIO import FileNameWithIOInfo, StdDescriptorWithIOInfo
    if access == STR:
        return isinstance(x, ArgStringType) and E.eq(x.name, text)
    if isinstance(x, ArgStringType) or not isinstance(x, (FileNameWithIOInfo, StdDescriptorWithIOInfo)):
        return False
    return E.all([E.eq(x.access.kind.name, access), names_it(E, x, text, access)])


def names_it(E, x, text, access):
    from pash_annotations.datatypes.BasicDatatypes import FileName, StdDescriptor, StdDescriptorEnum
    if isinstance(x, StdDescriptor):
        want = StdDescriptorEnum.STDIN if access.endswith('INPUT') else StdDescriptorEnum.STDOUT
        return E.all([E.eq(text, '-'), x.name is want])
    return E.all([E.eq(x.name, text), E.neg(std(E, text, access))])


def implicit(E, x, which, access):
    """x is the implicit standard input/output with streaming access."""
    from pash_annotations.datatypes.BasicDatatypes import StdDescriptor, StdDescriptorEnum
    return isinstance(x, StdDescriptor) and x.name is getattr(StdDescriptorEnum, which) and x.access.kind.name == access


def has_access(x, access):
    """x is reported with this access (a plain string, flag or None has none)."""
    from pash_annotations.datatypes.BasicDatatypesWithIO import FileNameWithIOInfo, StdDescriptorWithIOInfo
    return isinstance(x, (FileNameWithIOInfo, StdDescriptorWithIOInfo)) and x.access.kind.name == access


def options(E, c):
    """(reported argument, reference item) of the options."""
    from pash_annotations.datatypes.BasicDatatypesWithIO import OptionWithIO
    out = []
    for a, it in zip(c.app.flag_option_list, c.items):
        if it.kind == 'opt':
            E.check(isinstance(a, OptionWithIO), 'an option is no longer one')
            if isinstance(a, OptionWithIO):
                out.append((a.option_arg, it))
    return out


def exactly(E, c, access, what):
    """Exactly the option arguments and operands the manual says have this access, with their names."""
    for x, it in options(E, c):
        if E.eq(c.u.oaccess[it.name], access):
            E.check(is_arg(E, x, it.arg, access), what + ': an option argument is missing or has another name')
            E.reach('option ' + access)
        else:
            E.check(not has_access(x, access), what + ': an option argument is reported')
    E.check(len(c.app.operand_list) == len(c.ops), 'number of operands')
    for x, text, acc in zip(c.app.operand_list, c.ops, c.spec.ops):
        if acc == access:
            E.check(is_arg(E, x, text, access), what + ': an operand is missing or has another name')
            E.reach('operand ' + access)
        else:
            E.check(not has_access(x, access), what + ': an operand is reported')


def implicit_iff(E, x, want, which, access, what):
    if want is FREE:
        return
    if want:
        E.reach('implicit')
        E.check(implicit(E, x, which, access), what + ' is not reported')
    else:
        E.reach('no implicit')
        E.check(x is None, what + ' is reported')
