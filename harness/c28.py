"""C28: the command-line tool reports the API's answers and never overwrites."""
import argparse
import os
import shutil
import sys
import tempfile

from harness import iolib
from harness.ref import U, UNKNOWN, Util, spellings

LEVEL = 'model_checking'
EXPECT_TAGS = ['printed', 'saved', 'kept', 'no information', 'other outputs', 'applied', 'parallelizable', 'not parallelizable']
ASSUMPTIONS = ['argparse hands the two option values to the tool unchanged', 'the layout of the report (its headings) is the one of the current tool',
               'nobody else creates or changes the target while the tool runs']
BOUNDS = {'quick': 'every annotated utility and an unknown one; up to one flag or option in any spelling with an argument of length <=1, up to two operands, '
                   'the first any word of length <=1; target not given, absent or a file, without flags and options also an empty file, a symbolic link to a file, a dangling one, a directory',
          'thorough': 'up to two flags and options, first operand of length <=2, option arguments of length <=2'}
TARGETS = ['none', 'absent', 'file', 'empty', 'link', 'dangling', 'directory']
OLD = 'old text\n'


def tasks(tier):
    out = []
    for c in sorted(U) + UNKNOWN[:1]:
        for s in iolib.shapes(c, 1 if tier == 'quick' else 2):
            u = U.get(c, Util())
            out.append(dict(fn='report', params=dict(cmd=c, shape=s, l=1 if tier == 'quick' else 2),
                            cost=(1 + len(u.cf) * s.count('f') + 2 * len(u.co) * s.count('o')) ** max(1, len(s))))
    return out


def run_tool(E, command, save_to):
    """(ended normally, printed text): the tool run as a program with these option values."""
    import pash_annotations
    path = os.path.join(os.path.dirname(pash_annotations.__file__), 'annotation_cli.py')
    orig, argv = argparse.ArgumentParser.parse_args, sys.argv

    def parse_args(self, args=None, namespace=None):
        ns = orig(self, ['--command_invocation', '@COMMAND@'] + ([] if save_to is None else ['--save_to', save_to]))
        for k in list(vars(ns)):
            if vars(ns)[k] == '@COMMAND@':
                setattr(ns, k, command)
        return ns
    argparse.ArgumentParser.parse_args = parse_args
    sys.argv = [path]
    try:
        with E.capture_print() as out:
            r = E.call(E.script, path)
    finally:
        argparse.ArgumentParser.parse_args = orig
        sys.argv = argv
    return r, out.text()


def prepare(kind, d):
    p = os.path.join(d, 'target')
    if kind == 'none':
        return None
    if kind == 'file':
        with open(p, 'w') as f:
            f.write(OLD)
    elif kind == 'empty':
        open(p, 'w').close()
    elif kind == 'link':
        with open(os.path.join(d, 'other'), 'w') as f:
            f.write(OLD)
        os.symlink(os.path.join(d, 'other'), p)
    elif kind == 'dangling':
        os.symlink(os.path.join(d, 'gone'), p)
    elif kind == 'directory':
        os.mkdir(p)
    return p


def expected(E, command):
    from pash_annotations.parser.parser import parse
    from pash_annotations.annotation_generation.AnnotationGeneration import get_input_output_info_from_cmd_invocation as io
    from pash_annotations.annotation_generation.AnnotationGeneration import get_parallelizability_info_from_cmd_invocation as para
    from pash_annotations.annotation_generation.datatypes.ParallelizabilityInfo import ParallelizabilityInfo
    inv = parse(command)
    a, b = io(inv), para(inv)
    t = '>>> READ COMMAND INVOCATION: \n' + command + '\n\n>>> PARSED COMMAND INVOCATION: \n' + str(inv)
    t = t + '\n>>> INPUT-OUTPUT INFORMATION (applied to command invocation if possible): \n'
    if a is None:
        E.reach('no information')
        t = t + 'Information not provided so considered side-effectful.'
    elif a.has_other_outputs():
        E.reach('other outputs')
        t = t + 'Provided command has outputs other than streaming.'
    else:
        E.reach('applied')
        t = t + str(a.apply_input_output_info_to_command_invocation(inv))
    if b is None or not b.get_inferred_parallelizer_list():
        E.reach('not parallelizable')
    else:
        E.reach('parallelizable')
    b = para(inv)
    return t + '\n>>> PARALLELIZABILITY INFORMATION: \n' + str(ParallelizabilityInfo() if b is None else b)


def word(E, name, vocab, upto):
    k = E.choose(name + '.k', len(vocab) + upto + 1)
    return vocab[k] if k < len(vocab) else E.word(name, [], (k - len(vocab),))


def items(E, p):
    u, ex, out = U.get(p['cmd'], Util()), iolib.excluded(p['cmd']), []
    for i, k in enumerate(p['shape']):
        t = u.cf if k == 'f' else u.co
        ss = [s for s in sorted(t) if t[s] not in ex]
        out.append(ss[E.choose('%s%d' % (k, i), len(ss))])
        if k == 'o':
            out.append(word(E, 'a%d' % i, ['-'], p['l']))
    return out


def report(E, p):
    import pash_annotations.parser.parser
    kind = TARGETS[E.choose('target', 3 if p['shape'] else len(TARGETS))]
    iw = items(E, p)
    n = E.choose('n', 3)
    ws = iw + ([word(E, 'x0', ['-', 'a b'], p['l'])] if n else []) + (['f2'] if n > 1 else [])
    command = E.command([p['cmd']] + ws)
    d = tempfile.mkdtemp(prefix='c28-')
    try:
        target = prepare(kind, d)
        with E.files() as files:
            r, out = run_tool(E, command, target)
            E.check(r.ok, 'the tool failed')
            if not r.ok:
                return
            want = expected(E, command)
            E.observe('out', out)
            if kind == 'absent':
                E.reach('saved')
                got = files.text(target)
                E.observe('saved', got)
                E.check(got is not None, 'nothing was saved')
                if got is not None:
                    E.check(E.eq(got, want), 'the saved report differs from the answers of the library')
                return
            E.check(out.endswith(want + '\n'), 'the printed report differs from the answers of the library')
            if kind == 'none':
                E.reach('printed')
                E.check(E.eq(out, want + '\n'), 'something else is printed')
                E.check(os.listdir(d) == [], 'a file was made')
                return
            E.reach('kept')
            have = sorted(os.listdir(d))
            E.check(have == (['other', 'target'] if kind == 'link' else ['target']), 'files changed')
            E.check(os.path.islink(target) == (kind in ('link', 'dangling')), 'the link was replaced')
            if kind == 'directory':
                E.check(os.path.isdir(target) and os.listdir(target) == [], 'the directory changed')
            elif kind != 'dangling':
                E.check(files.text(target) == ('' if kind == 'empty' else OLD), 'an existing file was changed')
    finally:
        shutil.rmtree(d)
