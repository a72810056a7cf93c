"""C16: splitting the input never changes the output."""
import itertools
import os
import shutil
import subprocess
import tempfile

from harness import iolib, models
from harness.ref import U

LEVEL = 'model_checking'
EXPECT_TAGS = ['concatenated', 'merged', 'not offered', 'model', 'grep', 'tr', 'cut', 'sort', 'custom_sort', 'uniq', 'sed']
ASSUMPTIONS = ['the utilities behave as harness/models.py states under LC_ALL=C; the replay of every explored path compares this with the installed '
               'grep, tr, cut, sort, uniq and sed',
               'custom_sort orders like sort', 'input comes from standard input; no files in option arguments', 'input of text lines over ASCII',
               'grep: file selection options (--include, --exclude, -r) and conflicting matchers are outside; tr, cut and sort: uses they reject are outside']
BOUNDS = {'quick': 'up to two flags and options; inputs of up to 3 lines (2 for tr), the last possibly unterminated, in every split into two pieces and into '
                   'single lines; lines are any choice from a vocabulary per command (grep 5, cut 5, tr 6, sed 5, sort 18 for 2 lines and 6 for 3 lines, uniq 5); '
                   'grep patterns a and the empty one, 20 tr sets, 34 sed scripts, 5 cut lists, 9 sort keys; pairwise aggregators are folded from both ends',
          'thorough': 'up to three flags and options for grep and sort, inputs of up to 4 lines'}
TRACE_CAP = 40
ARG = {'grep': {'-e': ['a', ''], '--label': ['L'], '--group-separator': ['x'], '--binary-files': ['text'], '-D': ['read'], '-d': ['read'], '-m': ['1', '2'],
                '-A': ['1'], '-B': ['1'], '-C': ['1']},
       'cut': {'-b': ['1', '2-', '1,3'], '-c': ['1', '-1'], '-f': ['1', '2', '2-'], '-d': [',', ' '], '--output-delimiter': ['x']},
       'sort': {'--sort': ['numeric', 'month', 'random'], '--batch-size': ['2'], '-k': ['1', '2', '1,1', '2n', '1,1r', '1.2', '2,2b', '1R', '2M'],
                '-S': ['1M'], '-t': [',', ' '], '--parallel': ['1'], '--compress-program': ['gzip']},
       'uniq': {'-f': ['1'], '-s': ['1'], '-w': ['1']},
       'sed': {'-e': ['s/a/b/', '$d', 'p'], '-l': ['5']}}
OUT = {'grep': ['-r', '-R', '--exclude', '--exclude-from', '--exclude-dir', '--include', '-f', '-V', '--help', '-y', '-I', '-L'],
       'sort': ['--random-source', '--files0-from', '-o', '-T', '--help', '--version'], 'sed': ['-f', '--help', '--version'],
       'cut': ['--help', '--version'], 'tr': ['--help', '--version'], 'uniq': ['--help', '--version']}
SORTLINES = ['', 'a', 'A', 'b', 'B', '10', '9', ' 9', '1 2', '2 1', '-1', '1K', '2', 'Jan', 'feb', 'a,b', 'b,a', 'a-']
UNIQLINES = ['', 'a', 'A', 'b', 'x a', 'y a', 'ya', ' a', 'ab', 'aB']
TRSETS = ['a', 'b', 'ab', 'a-b', '\\n', '\n', 'a\\n', '[:space:]', '[:blank:]', ' ', '\\012', '\\011-\\015', '[:alpha:]', '-', '[:cntrl:]', 'b ', '\\\\n',
          '[:punct:]', '[=a=]', '\\0-\\377']
TRSETS2 = ['b', '\\n', 'x\\n', ' ', 'a-b', '[:lower:]', '[b*]', '[\\n*]', '']
SEDS = ['s/a/b/', 's/a/b/g', 's/a/b/p', 'p', 'd', '/a/d', '/a/p', '/a/s/a/b/', 'y/ab/ba/', 's/a/b/;s/b/a/', 's,a,b,', 's/a/&\\n/', '$d', '1d', '2q', '=', 'G', 'x',
        'h;G', 'N', 'n;d', '$!d', '1,2d', '/a/,/b/d', '/a/q', '$p', '1s/a/b/', 'a b', 'i b', 'c b', 'H;x', '/a/!d', '2,$d', 'N;P;D']


def tasks(tier):
    t = tier == 'thorough'
    out = []

    def add(cmd, depth, parts, lines, cost=10, **kw):
        for k in range(parts):
            out.append(dict(fn='pieces', params=dict(cmd=cmd, depth=depth, part=k, parts=parts, lines=lines, **kw), cost=cost, budget=3000))
    for d in range(0, 4 if t else 3):
        big = d == 3
        add('grep', d, [1, 4, 24, 48][d], 2 if d > 1 else 3, cost=10 ** d)
        add('sort', d, [1, 4, 16, 48][d], 2, cost=10 ** d)
        add('sort', d, [1, 4, 16, 48][d], 3, cost=10 ** d, few=1)
        if d < 3:
            add('custom_sort', d, [1, 1, 4][d], 2, cost=10 ** d)
            add('uniq', d, [1, 2, 4][d], 3, cost=10 ** d, few=1)
            add('cut', d, [1, 1, 4][d], 3, cost=10 ** d)
            add('sed', d, [1, 4, 8][d], 3 if d < 2 else 2, cost=10 ** d)
        add('tr', d, [4, 4, 8, 8][d], 3 if d < 2 else 2, cost=10 ** d)
    return out


# ------------------------------------------------------------------ inputs
def choose_items(E, p):
    """A concrete combination of flags and options: [(name, argument or None)]."""
    cmd = 'sort' if p['cmd'] == 'custom_sort' else p['cmd']
    u, out, cands = U[cmd], OUT.get(cmd, []), []
    for f in u.flags:
        f = min(f, key=len)
        if not any(x in out for x in [f]) and u.cf[f] not in out:
            cands.append((u.cf[f], None))
    for names, acc in u.opts:
        if acc is None and u.co[names[0]] not in out:
            cands += [(u.co[names[0]], a) for a in ARG[cmd].get(names[0], ['1'])]
    items = []
    for i in range(p['depth']):
        cs = [c for k, c in enumerate(cands) if k % p['parts'] == p['part']] if i == 0 and cmd != 'tr' else cands
        if not cs:
            return None
        items.append(cs[E.choose('item%d' % i, len(cs))])
    return items


def strings(E, cmd, items, p):
    if cmd == 'grep':
        return [] if '-e' in models.names(items) else [['a', ''][E.choose('pat', 2)]]
    if cmd == 'sed':
        if '-e' in models.names(items):
            return []
        mine = [s for k, s in enumerate(SEDS) if k % p['parts'] == p['part']] if not p['depth'] else SEDS
        return [mine[E.choose('script', len(mine))]]
    if cmd == 'tr':
        mine = [s for k, s in enumerate(TRSETS) if k % p['parts'] == p['part']]
        s = [mine[E.choose('set1', len(mine))]]
        k = E.choose('set2', len(TRSETS2) + 1)
        return s + ([TRSETS2[k - 1]] if k else [])
    return []


def valid(cmd, items, strs):
    """Uses the utility rejects or that are outside the domain."""
    ns = models.names(items)
    if cmd == 'grep':
        if len([n for n in ns if n in ('-E', '-F', '-G', '-P')]) > 1 or '-P' in ns and len(models.args(items, '-e')) > 1:
            return False
    elif cmd == 'cut':
        lists = [n for n in ns if n in ('-b', '-c', '-f')]
        if len(lists) != 1 or ('-d' in ns or '-s' in ns) and '-f' not in ns or ns.count('-d') > 1:
            return False
    elif cmd == 'tr':
        de, sq, two = '-d' in ns, '-s' in ns, len(strs) == 2
        if de and sq and not two or de and not sq and two or not de and not sq and not two:
            return False
        if not two and '-t' in ns:
            return True
        if two:
            s1 = models.tr_expand(strs[0])
            s2 = models.tr_expand(strs[1], len(s1))
            if not s2 and not (de and sq) and not ('-t' in ns):
                return False
            if de and ('[b*]' in strs[1] or '[\\n*]' in strs[1]):
                return False
            if ('[:' in strs[1] or '[:' in strs[0] and '-c' in ns) and not de:
                return False
            if '[:lower:]' in strs[1]:
                return False
            if '-t' in ns and '*' in strs[1]:
                return False
            if '-c' in ns and not de and len(set(s2)) > 1:
                return False
    elif cmd in ('sort', 'custom_sort'):
        kinds = [n for n in ns if n in ('-g', '-h', '-M', '-n', '-R', '-V')] + [a[0] for a in models.args(items, '--sort')]
        if len(set(kinds)) > 1 or ('-d' in ns or '-i' in ns) and set(kinds) - set(['-V', '-R']) or '-c' in ns and '-C' in ns:
            return False
        if ns.count('-t') > 1 and len(set(models.args(items, '-t'))) > 1 or '--debug' in ns and ('-c' in ns or '-C' in ns):
            return False
        if any('M' in a or 'n' in a or 'R' in a for a in models.args(items, '-k')) and ('-d' in ns or '-i' in ns):
            return True
    elif cmd == 'uniq':
        g = [n for n in ns if n.startswith('--group')]
        if g and set(ns) & set(['-c', '-d', '-D', '-u']) or len(set(g)) > 1 or any(n.startswith('--all') for n in ns) and g:
            return False
        if '-c' in ns and ('-D' in ns or any(n.startswith('--all') for n in ns)):
            return False
    elif cmd == 'sed':
        if '-i' in ns or '--posix' in ns:
            return False
    return True


# ------------------------------------------------------------------ the input
VOCAB = dict(grep=['', 'a', 'A', 'b a', 'aa'], cut=['', 'a', 'b,c', ',a b', 'abc'], tr=['', 'a', 'b', ' ', 'ab', '-a'], sed=['', 'a', 'A', 'b', 'aa'],
             sort=SORTLINES, uniq=UNIQLINES)
FEW = dict(sort=['', 'a', 'A', '10', '9 1', '2 3'], uniq=['', 'a', 'A', 'x a', 'y a'], tr=['a', 'b ', '-', ''])


def input_of(E, cmd, n, few):
    """One text: the way to split, whether the last line lacks its newline, and the lines, separated by \\1."""
    cmd = 'sort' if cmd == 'custom_sort' else cmd
    voc = FEW.get(cmd, VOCAB[cmd]) if few else VOCAB[cmd]
    key = (cmd, n, bool(few))
    if key not in CASES:
        CASES[key] = [SEP.join((at + end,) + ls) for at in [str(i) for i in range(n + 1)] + ['n', 'N'][:n - 1] for end in '.!'
                      for ls in itertools.product(voc, repeat=n)]
    return E.pick('case', CASES[key])


CASES = {}
SEP = '\1'


def whole_of(j):
    ls = j.split(SEP)
    return ''.join(l + '\n' for l in ls[1:-1]) + ls[-1] + ('\n' if ls[0][1] == '.' else '')


def pieces_of(j):
    ls = j.split(SEP)
    text = [l + '\n' for l in ls[1:-1]] + [ls[-1] + ('\n' if ls[0][1] == '.' else '')]
    if ls[0][0] in 'nN':
        return text
    k = int(ls[0][0])
    return [''.join(text[:k]), ''.join(text[k:])]


# ------------------------------------------------------------------ running
def modelled(cmd, items, strs, text=None, files=None):
    """The model's output for standard input or files; None if the model has no answer."""
    if files is not None:
        if cmd == 'cat':
            return ''.join(files)
        if cmd in ('sort', 'custom_sort') and models.on(items, '-m'):
            return models.merge(items, files)
        if cmd == 'grep' and len(files) > 1:
            return None
        text = ''.join(files)
    f = {'custom_sort': models.sort}.get(cmd) or getattr(models, cmd, None)
    return None if f is None else f(items, strs, text)


def memo(f):
    seen = {}

    def g(cmd, items, strs, text=None, files=None):
        k = (cmd, tuple(items), tuple(strs), text, None if files is None else tuple(files))
        if k not in seen:
            seen[k] = f(cmd, items, strs, text, files)
        return seen[k]
    return g


def executed(cmd, items, strs, text=None, files=None):
    """The installed utility's output; None if it rejects the command."""
    d = tempfile.mkdtemp(prefix='c16-')
    try:
        argv = ['sort' if cmd == 'custom_sort' else cmd]
        for n, a in items:
            argv += [n] if a is None else [n + '=' + a] if n[:2] == '--' else [n + a] if a else [n, a]
        argv += strs
        for i, f in enumerate(files or []):
            with open(os.path.join(d, 'p%d' % i), 'w') as h:
                h.write(f)
            argv.append('p%d' % i)
        r = subprocess.run(argv, input=(text or '').encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=d, timeout=20,
                           env=dict(LC_ALL='C', PATH=os.environ['PATH'], TMPDIR=d))
        if r.returncode >= (2 if argv[0] in ('grep', 'sort') else 1):
            return None
        return r.stdout.decode('latin-1')
    finally:
        shutil.rmtree(d)


# ------------------------------------------------------------------ the library's part
def parsed(E, cmd, items, strs):
    from pash_annotations.parser.parser import parse
    from pash_annotations.datatypes.BasicDatatypes import Flag, Option, Operand
    from pash_annotations.datatypes.CommandInvocationInitial import CommandInvocationInitial
    if cmd == 'custom_sort':
        return CommandInvocationInitial(cmd, [Flag(n) if a is None else Option(n, a) for n, a in items], [Operand(s) for s in strs])
    words = []
    for n, a in items:
        words += [n] if a is None else [n, a]
    return parse(E.command([cmd] + words + strs))


def over_identifiers(E, inv, info):
    """The invocation over stream identifiers 1 (standard input) and 2 (standard output)."""
    from pash_annotations.datatypes.CommandInvocationWithIOVars import CommandInvocationWithIOVars
    from pash_annotations.datatypes.BasicDatatypesWithIOVar import OptionWithIOVar
    from pash_annotations.datatypes.BasicDatatypes import Flag, ArgStringType
    from pash_annotations.datatypes.AccessKind import make_stream_input, make_stream_output
    fo = [Flag(x.get_name()) if isinstance(x, Flag) else OptionWithIOVar(x.get_name(), ArgStringType(x.get_arg())) for x in inv.flag_option_list]
    ops = [ArgStringType(x.name) for x in inv.operand_list]
    return CommandInvocationWithIOVars(inv.cmd_name, fo, ops, 1, 2, {1: make_stream_input(), 2: make_stream_output()})


def describe(inv):
    """(flags and options, strings, identifiers among the operands) of a mapper or an aggregator."""
    from pash_annotations.datatypes.BasicDatatypes import Flag, ArgStringType
    items = [(x.get_name(), None) if isinstance(x, Flag) else (x.get_name(), x.option_arg.name) for x in inv.flag_option_list]
    strs = [x.name for x in inv.operand_list if isinstance(x, ArgStringType)]
    return items, strs, [x for x in inv.operand_list if not isinstance(x, ArgStringType)]


def pieces(E, p):
    from pash_annotations.annotation_generation.AnnotationGeneration import get_input_output_info_from_cmd_invocation as io
    from pash_annotations.annotation_generation.AnnotationGeneration import get_parallelizability_info_from_cmd_invocation as para
    cmd = p['cmd']
    items = choose_items(E, p)
    if items is None:
        return
    strs = strings(E, cmd, items, p)
    if not valid(cmd, items, strs):
        return
    E.reach(cmd)
    run = memo(modelled) if E.symbolic else executed
    inv = parsed(E, cmd, items, strs)
    E.check(len(inv.flag_option_list) == len(items) and len(inv.operand_list) == len(strs), 'parsed differently')
    j = input_of(E, cmd, p['lines'], p.get('few'))
    known = modelled(cmd, items, strs, '') is not None
    if known and comparable(cmd, items):
        # compares the model with the installed utility when this path is replayed
        E.reach('model')
        E.observe_table('whole', lambda x: run(cmd, items, strs, whole_of(x)), j)
    info = para(inv)
    offered = [] if info is None else [x for x in info.get_inferred_parallelizer_list()
                                       if x.are_all_parts_implemented() and x.splitter.is_splitter_consec_chunks()]
    if not offered:
        E.reach('not offered')
        return
    if E.symbolic and not known:
        E.unsupported('no model for this use')
    iv = over_identifiers(E, inv, io(inv))
    for x in offered:
        m = x.get_actual_mapper(iv, 1, 10, [])
        mi, ms, mo = describe(m)
        E.check(mo == [], 'the mapper reads something else than its piece')
        pairwise = x.core_aggregator_spec.is_aggregator_spec_custom_2_ary()
        aggs = {}
        for n in [2] if pairwise else [2, p['lines']]:
            outs = list(range(11, 11 + n))
            g = x.get_actual_aggregator(iv, outs, 50)
            gi, gs, go = describe(g)
            E.check(sorted(go) == outs, 'the aggregator reads something else than the outputs of the mappers')
            if sorted(go) != outs:
                return
            aggs[n] = (g.cmd_name, gi, gs, go)
            if E.symbolic and modelled(g.cmd_name, gi, gs, files=['', '']) is None or E.symbolic and modelled(m.cmd_name, mi, ms, '') is None:
                E.unsupported('no model for the mapper or the aggregator')
        E.reach('concatenated' if aggs[2][0] == 'cat' else 'merged')

        def agree(t):
            whole = run(cmd, items, strs, whole_of(t))
            if whole is None:
                return True
            outs = [run(m.cmd_name, mi, ms, q) for q in pieces_of(t)]
            if None in outs:
                return False


            def put_together(outs):
                name, gi, gs, go = aggs[len(outs)]
                return run(name, gi, gs, files=[outs[v - 11] for v in go])
            while len(outs) not in aggs:
                # a two-way aggregator is applied again and again, from either end
                outs = outs[:-2] + [put_together(outs[-2:])] if t[0] == 'N' else [put_together(outs[:2])] + outs[2:]
                if None in outs:
                    return False
            return put_together(outs) == whole
        E.check_known('cut-z', cmd == 'cut' and '-z' in models.names(items), E.table(agree, j), 'the combined output of the pieces differs')


def comparable(cmd, items):
    """Colours are not modelled, '%'-like details of unstable orders neither."""
    return not models.on(items, '--color=always')
