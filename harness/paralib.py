"""Reference for parallelizability annotations."""
from harness.iolib import has

CC, RR = 'CONSEC_CHUNKS', 'ROUND_ROBIN_PLAIN'
SORT_ORDERING = ['-b', '-d', '-f', '-g', '-i', '-M', '-h', '-n', '-r', '--sort', '-V', '-k', '-t']
SORT_NONE = ['-c', '-C', '-u', '-z', '-R', '-s', '-m', '--files0-from', '--random-source', '--debug']
GREP_NONE = ['-c', '-L', '-l', '-b', '-n', '-q', '-A', '-B', '-C', '-m', '-z'] + ['-%d' % i for i in range(10)]
UNIQ_NONE = ['-d', '-D', '-u', '-z', '--all-repeated', '--all-repeated=prepend', '--all-repeated=separate', '--group', '--group=prepend',
             '--group=append', '--group=both']


class Exp:
    """Expected parallelizer: splitter, mapper ('seq' or a command name), aggregator kind, its command, implemented?, pipes."""
    def __init__(self, splitter, mapper, agg, cmd=None, implemented=True, pipes=0):
        self.splitter, self.mapper, self.agg, self.cmd = splitter, mapper, agg, cmd
        self.implemented, self.pipes = implemented, pipes


CONC = [Exp(CC, 'seq', 'CONCATENATE'), Exp(RR, 'seq', 'CONCATENATE')]
ADJ = [Exp(CC, 'seq', 'ADJ', implemented=False), Exp(RR, 'seq', 'ADJ', implemented=False)]
MERGE = [Exp(CC, 'seq', 'CUSTOM_2_ARY')]


def expected(E, cmd, items, ops):
    """(expected parallelizers or None, commutative)"""
    if cmd in ('cut', 'col', 'custom_tr', 'xargs'):
        return CONC, False
    if cmd == 'grep':
        return ([] if has(E, items, *GREP_NONE) else CONC), False
    if cmd in ('sort', 'custom_sort'):
        no = E.any([has(E, items, *SORT_NONE)] +
                   [E.all([E.eq(it.name, '--sort'), it.arg[:1] == 'r']) for it in items if it.kind == 'opt'] +
                   [E.all([E.eq(it.name, '-k'), 'R' in it.arg]) for it in items if it.kind == 'opt'])
        return ([], False) if no else (MERGE, True)
    if cmd == 'uniq':
        return ([] if has(E, items, *UNIQ_NONE) else ADJ), False
    if cmd == 'tr':
        if not ops:
            return None, False
        return (ADJ if tr_effects(E, items, ops) else CONC), False
    if cmd == 'sed':
        if has(E, items, '-f', '-i', '-z', '--debug'):
            return [], False
        given = has(E, items, '-e')
        scripts = []
        if given:
            for it in items:
                if it.kind == 'opt' and E.eq(it.name, '-e'):
                    scripts.append(it.arg)
        elif ops:
            scripts = [ops[0]]
        else:
            return None, False
        for s in scripts:
            if not sed_linewise(s):
                return [], False
        return CONC, False
    if cmd == 'set_diff':
        return CONC[:1], False
    if cmd in ('test_one', 'test_two'):
        return [Exp(CC, 'seq', 'CUSTOM_N_ARY', implemented=False)], False
    if cmd == 'alt_bigrams_aux':
        return [Exp(CC, 'alt_bigrams_aux', 'CUSTOM_2_ARY', 'alt_bigram_aux_reduce')], False
    if cmd == 'bigrams_aux':
        return [Exp(CC, 'bigram_aux_map', 'CUSTOM_2_ARY', 'bigram_aux_reduce', pipes=2)], False
    return None, False


# ------------------------------------------------------------------ tr
ESC = {'a': '\a', 'b': '\b', 'f': '\f', 'n': '\n', 'r': '\r', 't': '\t', 'v': '\v'}


def tr_char(s, i):
    """The character (escapes resolved) at i, and the position after it."""
    c, n = s[i], len(s)
    if c != '\\' or i + 1 == n:
        return c, i + 1
    j, v = i + 1, 0
    while j < n and j < i + 4 and v < 32 and s[j] in '01234567':
        v = v * 8 + '01234567'.index(s[j])
        j += 1
    if j > i + 1:
        return chr(v), j
    e = s[i + 1]
    for k in 'abfnrtv':
        if e == k:
            e = ESC[k]
    return e, i + 2


def tr_has(s, c):
    """Does the set contain c, a newline or NUL? (tr(1): classes, escapes, ranges)"""
    i, n = 0, len(s)
    while i < n:
        if s[i] == '[' and i + 1 < n and s[i + 1] == ':':
            j = s[i + 2:].find(':]')
            if j >= 0:
                t = s[i + 2:i + 2 + j]
                if t == 'cntrl' or c == '\n' and t == 'space':
                    return True
                i += j + 4
                continue
        a, i = tr_char(s, i)
        b = a
        if i + 1 < n and s[i] == '-':
            b, i = tr_char(s, i + 1)
        if a <= c and c <= b:
            return True
    return False


def tr_has_newline(s):
    return tr_has(s, '\n')


def tr_effects(E, items, ops):
    """Newlines are deleted, or squeezed, or squeezing looks across lines."""
    sq, de, co = has(E, items, '-s'), has(E, items, '-d'), has(E, items, '-c')
    if not sq and not de:
        return False
    first = tr_has_newline(ops[0]) != (True if co else False)
    if de and first:
        return True
    if sq:
        last = tr_has_newline(ops[-1]) if len(ops) > 1 else first
        return first or last
    return False


# ------------------------------------------------------------------ sed
def sed_linewise(s):
    """One-line scripts of s, y, d and p commands with at most a regex address: a small state machine over the characters."""
    st = 'cmd'
    esc = False
    delim = None
    left = 0
    cmd = None
    empty = True
    for c in s:
        if c == '\n':
            return False
        if st == 'cmd' or st == 'cmd2':
            if c == ' ' and st == 'cmd':
                continue
            if c == '/' and st == 'cmd':
                st, empty, esc = 'addr', True, False
            elif c == 'd' or c == 'p':
                st = 'end'
            elif c == 's' or c == 'y':
                cmd, st = c, 'delim'
            else:
                return False
        elif st == 'addr':
            if esc:
                esc, empty = False, False
            elif c == '\\':
                esc, empty = True, False
            elif c == '/':
                if empty:
                    return False
                st = 'cmd2'
            else:
                empty = False
        elif st == 'delim':
            if c == '\\':
                return False
            delim, st, left, empty, esc = c, 'part', 2, True, False
        elif st == 'part':
            if esc:
                esc, empty = False, False
            elif c == delim:
                if left == 2 and empty:
                    return False
                left -= 1
                if left == 0:
                    st = 'flags' if cmd == 's' else 'end'
            elif c == '\\':
                esc, empty = True, False
            else:
                empty = False
        elif st == 'flags' and c in 'gpiI0123456789':
            pass
        else:       # flags, end
            if c != ';':
                return False
            st = 'cmd'
    return st == 'end' or st == 'flags'


# ------------------------------------------------------------------ comparison
def compare(E, info, want, commutative):
    """The offered parallelizers are the expected ones, in any order."""
    from pash_annotations.annotation_generation.datatypes.parallelizability.MapperSpec import MapperSpecKindEnum
    pl = info.parallelizer_list
    E.check(len(pl) == len(want), 'number of parallelizers')
    E.check(info.is_commutative == commutative, 'commutativity')
    E.check(not info.round_robin_compatible_with_cat, 'round robin with cat')
    if len(pl) != len(want):
        return
    if len(want) == 2 and pl[0].splitter.kind.name == RR:
        pl = [pl[1], pl[0]]
    for a, w in zip(pl, want):
        E.check(a.splitter.kind.name == w.splitter, 'splitter')
        m = a.core_mapper_spec
        if w.mapper == 'seq':
            E.check(m.kind is MapperSpecKindEnum.SAME_AS_SEQ and m.spec_mapper_cmd_name is None, 'mapper is not the command itself')
        else:
            E.check(m.kind is MapperSpecKindEnum.CUSTOM and m.spec_mapper_cmd_name == w.mapper, 'mapper command')
        g = a.core_aggregator_spec
        k = g.kind.name
        E.check(k in ('ADJ_LINES_MERGE', 'ADJ_LINES_SEQ', 'ADJ_LINES_FUNC') if w.agg == 'ADJ' else k == w.agg, 'aggregator kind')
        if w.cmd is not None:
            E.check(getattr(g, 'cmd_inv_as_str', None) == w.cmd, 'aggregator command')
        E.check(a.are_all_parts_implemented() == w.implemented, 'implemented')
        E.check(a.info_splitter_mapper.name == 'NO_ADD_INPUT', 'information from the splitter')
        E.check(a.info_mapper_aggregator == w.pipes and a.get_info_mapper_aggregator() == w.pipes, 'number of auxiliary pipes')
