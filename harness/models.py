"""Models of the utilities C16 is about (GNU grep, coreutils and sed manuals, LC_ALL=C): from input text to output text.

None where there is no model. The replay runs the installed utilities instead, and their output is compared with these models on
the sampled paths."""
import functools
import math
import re
from functools import cmp_to_key

NL = '\n'


def names(items):
    return [n for n, a in items]


def args(items, name):
    return [a for n, a in items if n == name]


def on(items, *which):
    return any(n in which for n, a in items)


def records(text, end):
    ls = text.split(end)
    if ls[-1] == '':
        ls.pop()
    return ls


# ------------------------------------------------------------------ grep
def grep(items, strs, text):
    pats = args(items, '-e') or strs[:1]
    pats = [q for p in pats for q in p.split(NL)]
    z = on(items, '-z')
    end = '\0' if z else NL
    lines = text.split(end)
    if lines[-1] == '':
        lines.pop()
    ic = on(items, '-i') and last(items, '-i', '--no-ignore-case') == '-i'
    w, x, v = on(items, '-w') and not on(items, '-x'), on(items, '-x'), on(items, '-v')
    o = on(items, '-o')
    found = [spans(pats, ic, w, x, l) for l in lines]
    selected = [bool(f) != v for f in found]
    limit = int((args(items, '-m') or ['1000000'])[-1])
    name = args(items, '--label')[-1] if on(items, '--label') else '(standard input)'
    head = name + ('\0' if on(items, '-Z') else ':') if on(items, '-H', '-h') and last(items, '-H', '-h') == '-H' else ''
    n = min(limit, len([1 for s in selected if s]))
    if on(items, '-q') or '' in pats and v and not w and not x and len(pats) == 1 and not on(items, '-L'):
        return ''
    if limit == 0 and not on(items, '-c', '-l', '-L'):
        return ''
    if on(items, '-l', '-L'):
        show = (n > 0) == (last(items, '-l', '-L') == '-l')
        return name + ('\0' if on(items, '-Z') else NL) if show else ''
    if on(items, '-c'):
        return head + str(n) + NL
    ctx = [int(a) if k == '-C' else int(k[1]) for k, a in items if k == '-C' or len(k) == 2 and k[1] in '0123456789']
    grouped = bool(ctx) or on(items, '-A', '-B')
    ctx = ctx[-1] if ctx else 0
    before, after = int((args(items, '-B') or [ctx])[-1]), int((args(items, '-A') or [ctx])[-1])
    out, printed, trailing, taken, pos = [], -1, 0, 0, 0
    starts = []
    for l in lines:
        starts.append(pos)
        pos += len(l) + 1
    color = on(items, '--color=always')

    def prefix(sep, i, offset, text_):
        h = head
        if sep == '-' and head and head[-1] == ':':
            h = head[:-1] + '-'
        if on(items, '-n'):
            h += ('%19d' if on(items, '-T') else '%d') % (i + 1) + sep
        if on(items, '-b'):
            h += ('%19d' if on(items, '-T') else '%d') % offset + sep
        if on(items, '-T') and h and text_:
            h += '\t'
        return h

    def put(sep, i):
        out.append(prefix(sep, i, starts[i], lines[i]) + lines[i] + end)
    for i, l in enumerate(lines):
        if taken < limit and selected[i]:
            taken += 1
            lo = max(printed + 1, i - before)
            if grouped and printed >= 0 and lo > printed + 1 and not on(items, '--no-group-separator'):
                out.append((args(items, '--group-separator') or ['--'])[-1] + NL)
            if o:
                if not v:
                    for a, z_ in found[i]:
                        if z_ > a:
                            out.append(prefix(':', i, starts[i] + a, l[a:z_]) + l[a:z_] + end)
                printed = i
                trailing = after
                continue
            for j in range(lo, i):
                put('-', j)
            put(':', i)
            printed, trailing = i, after
        elif taken < limit and trailing:
            if not o:
                put('-', i)
            printed = i
            trailing -= 1
        elif taken == limit:
            # trailing context after the last one
            if trailing:
                if not o:
                    put('-', i)
                printed = i
                trailing -= 1
    return ''.join(out)


def last(items, *which):
    return [n for n, a in items if n in which][-1]


def word_char(c):
    return c.isalnum() or c == '_'


def spans(pats, ic, w, x, line):
    """The leftmost longest matches of fixed patterns in a line."""
    out, i = [], 0
    low = line.lower() if ic else line
    while i <= len(line):
        best = None
        for p in pats:
            q = p.lower() if ic else p
            if low.startswith(q, i):
                z = i + len(q)
                if x and (i or z != len(line)):
                    continue
                if w and (i > 0 and word_char(line[i - 1]) or z < len(line) and word_char(line[z])):
                    continue
                if best is None or z > best:
                    best = z
        if best is None:
            i += 1
            continue
        out.append((i, best))
        i = max(best, i + 1)
    return out


# ------------------------------------------------------------------ cut
def cut(items, strs, text):
    end = '\0' if on(items, '-z') else NL
    out = []
    for l in records(text, end):
        r = cut_line(items, l)
        if r is not None:
            out.append(r + end)
    return ''.join(out)


def positions(spec, n):
    got = set()
    for part in spec.split(','):
        lo, dash, hi = part.partition('-')
        a = int(lo) if lo else 1
        z = int(hi) if hi else (10 ** 6 if dash else a)
        got.update(range(a, min(z, n) + 1))
    return got


def cut_line(items, s):
    comp = on(items, '--complement')
    chars = args(items, '-b') + args(items, '-c')
    od = args(items, '--output-delimiter')
    if chars:
        sel = positions(chars[-1], len(s))
        if comp:
            sel = set(range(1, len(s) + 1)) - sel
        out, prev = '', None
        for i in sorted(sel):
            if od and prev is not None and boundary(chars[-1], comp, prev, i, len(s)):
                out += od[-1]
            out += s[i - 1]
            prev = i
        return out
    d = (args(items, '-d') or ['\t'])[-1]
    fs = s.split(d)
    if len(fs) == 1:
        return None if on(items, '-s') else s
    sel = positions(args(items, '-f')[-1], len(fs))
    if comp:
        sel = set(range(1, len(fs) + 1)) - sel
    return (od[-1] if od else d).join(fs[i - 1] for i in sorted(sel))


def boundary(spec, comp, prev, i, n):
    """The output delimiter comes between ranges, not inside one."""
    return i != prev + 1


# ------------------------------------------------------------------ tr
ESC = {'a': '\a', 'b': '\b', 'f': '\f', 'n': '\n', 'r': '\r', 't': '\t', 'v': '\v'}
CLASSES = {'alpha': 'a-zA-Z', 'lower': 'a-z', 'upper': 'A-Z', 'digit': '0-9', 'space': '\t-\r ', 'blank': ' \t', 'cntrl': '\0-\x1f\x7f',
           'punct': '!-/:-@[-`{-~', 'alnum': '0-9A-Za-z', 'print': ' -~', 'graph': '!-~', 'xdigit': '0-9A-Fa-f'}


def tr_expand(s, other=None, complement=False):
    out, i = [], 0
    toks = []
    while i < len(s):
        m = re.match(r'\[:(\w+):\]', s[i:])
        if m and m.group(1) in CLASSES:
            e = re.sub(r'(.)-(.)', lambda q: ''.join(chr(c) for c in range(ord(q.group(1)), ord(q.group(2)) + 1)), CLASSES[m.group(1)], flags=re.S)
            toks.append((sorted(e), False))
            i += m.end()
            continue
        m = re.match(r'\[=(.)=\]', s[i:], re.S)
        if m:
            toks.append(([m.group(1)], False))
            i += m.end()
            continue
        m = re.match(r'\[(\\.|.)\*(\d*)\]', s[i:], re.S)
        if m and other is not None:
            n = m.group(2)
            toks.append((ESC.get(m.group(1)[1:], m.group(1)[-1]), 'fill' if not n or int(n, 8 if n[0] == '0' else 10) == 0 else int(n, 8 if n[0] == '0' else 10)))
            i += m.end()
            continue
        m = re.match(r'\\([0-7]{1,3})', s[i:])
        if m:
            v = m.group(1)
            if int(v, 8) > 255:
                v = v[:2]
            toks.append(([chr(int(v, 8))], True))
            i += 1 + len(v)
            continue
        if s[i] == '\\' and i + 1 < len(s):
            toks.append(([ESC.get(s[i + 1], s[i + 1])], True))
            i += 2
            continue
        if s[i] == '-' and toks and i + 1 < len(s) and toks[-1][1] is True or s[i] == '-' and toks and i + 1 < len(s) and toks[-1][1] == 'chr':
            toks.append((None, '-'))
            i += 1
            continue
        toks.append(([s[i]], 'chr'))
        i += 1
    i = 0
    fill = None
    while i < len(toks):
        if i + 2 < len(toks) and toks[i + 1][1] == '-' and toks[i + 2][1] in (True, 'chr'):
            a, b = toks[i][0][0], toks[i + 2][0][0]
            out += [chr(c) for c in range(ord(a), ord(b) + 1)]
            i += 3
            continue
        t, k = toks[i]
        if k == 'fill':
            fill = (len(out), t)
        elif isinstance(k, int) and not isinstance(k, bool):
            out += [t] * k
        elif k == '-':
            out += ['-']
        else:
            out += t
        i += 1
    if fill is not None and other is not None:
        miss = max(0, other - len(out))
        out[fill[0]:fill[0]] = [fill[1]] * miss
    return out


def tr_table(items, strs):
    k = (tuple(items), tuple(strs))
    if k not in TABLES:
        TABLES.clear()
        TABLES[k] = tr_table_(items, strs)
    return TABLES[k]


TABLES = {}
CMPS = {}


def sort_cmp(items):
    k = tuple(items)
    if k not in CMPS:
        CMPS.clear()
        CMPS[k] = functools.lru_cache(maxsize=5000)(sort_cmp_(items))
    return CMPS[k]


def tr_table_(items, strs):
    """(character -> deleted?, character -> character, squeezed characters) for concrete sets."""
    comp = on(items, '-c')
    s1 = tr_expand(strs[0])
    if comp:
        s1 = [chr(c) for c in range(256) if chr(c) not in s1]
    de, sq = on(items, '-d'), on(items, '-s')
    if de:
        deleted = set(s1)
        return deleted, {}, set(tr_expand(strs[1])) if sq and len(strs) > 1 else set()
    if len(strs) == 1:
        return set(), {}, set(s1)
    s2 = tr_expand(strs[1], len(s1))
    if on(items, '-t'):
        s1 = s1[:len(s2)]
    elif len(s2) < len(s1) and s2:
        s2 = s2 + [s2[-1]] * (len(s1) - len(s2))
    m = {}
    for a, b in zip(s1, s2):
        m[a] = b
    return set(), m, set(s2) if sq else set()


def tr(items, strs, text):
    deleted, m, sq = tr_table(items, strs)
    out, prev = [], None
    for c in text:
        if c in deleted:
            continue
        c = m.get(c, c)
        if c == prev and c in sq:
            continue
        out.append(c)
        prev = c
    return ''.join(out)


# ------------------------------------------------------------------ sort
MONTHS = ['JAN', 'FEB', 'MAR', 'APR', 'MAY', 'JUN', 'JUL', 'AUG', 'SEP', 'OCT', 'NOV', 'DEC']


def num(s, human=False):
    m = re.match(r'[ \t\n]*(-?)(\d*)(\.\d*)?([kKMGTPEZYRQ]?)', s)
    digits_ = m.group(2) + (m.group(3) or '')
    if not any(c in '0123456789' for c in digits_):
        return (0, 0.0) if human else 0.0
    v = float((m.group(2) or '0') + (m.group(3) or ''))
    sign = -1 if m.group(1) else 1
    if human:
        # the sign, then the suffix, then the number
        mag = 'kKMGTPEZYRQ'.find(m.group(4)) + 1 if m.group(4) else 0
        mag = max(1, mag - 1) if mag > 1 else mag
        return (0, 0.0) if v == 0 else (sign * mag, sign * v)
    return sign * v


def gnum(s):
    m = re.match(r'[ \t\n\v\f\r]*([-+]?(?:inf(?:inity)?|nan|0x[0-9a-f]+|\d+\.?\d*(?:e[-+]?\d+)?|\.\d+))', s, re.I)
    if not m:
        return (0, 0.0)
    t = m.group(1).lower()
    v = float(int(t, 16)) if 'x' in t else float(t)
    return (1, 0.0) if math.isnan(v) else (2, v)


def month(s):
    t = s.lstrip(' \t')[:3].upper()
    return MONTHS.index(t) + 1 if t in MONTHS else 0


def compare_by(opts, a, b):
    def cmp(x, y):
        return (x > y) - (x < y)
    if 'b' in opts:
        a, b = a.lstrip(' \t\n'), b.lstrip(' \t\n')
    if 'n' in opts:
        return cmp(num(a), num(b))
    if 'g' in opts:
        return cmp(gnum(a), gnum(b))
    if 'h' in opts:
        return cmp(num(a, True), num(b, True))
    if 'M' in opts:
        return cmp(month(a), month(b))
    def tr_(s):
        if 'd' in opts:
            s = ''.join(c for c in s if c.isalnum() or c in ' \t')
        if 'i' in opts:
            s = ''.join(c for c in s if ' ' <= c <= '~')
        if 'f' in opts:
            s = s.upper()
        return s
    return (vercmp if 'V' in opts else cmp)(tr_(a), tr_(b))


def vercmp(a, b):
    """filevercmp for names without a file extension: digits by value, others with letters before other characters."""
    if a == b:
        return 0
    if not a or not b:
        return -1 if not a else 1
    if a[0] == '.' or b[0] == '.':
        if (a[0] == '.') != (b[0] == '.'):
            return -1 if a[0] == '.' else 1

    def order(c):
        return 0 if c.isdigit() else ord(c) if c.isalpha() else -1 if c == '~' else ord(c) + 256
    i = j = 0
    while i < len(a) or j < len(b):
        while i < len(a) and not a[i].isdigit() or j < len(b) and not b[j].isdigit():
            x = order(a[i]) if i < len(a) else -2 if False else 0
            y = order(b[j]) if j < len(b) else 0
            if x != y:
                return -1 if x < y else 1
            i += 1
            j += 1
        while i < len(a) and a[i] == '0':
            i += 1
        while j < len(b) and b[j] == '0':
            j += 1
        first = 0
        while i < len(a) and j < len(b) and a[i].isdigit() and b[j].isdigit():
            if not first:
                first = (a[i] > b[j]) - (a[i] < b[j])
            i += 1
            j += 1
        if i < len(a) and a[i].isdigit():
            return 1
        if j < len(b) and b[j].isdigit():
            return -1
        if first:
            return first
    return 0


def sort_keys(items):
    glob = ''.join(n[1] for n, a in items if n in ('-b', '-d', '-f', '-g', '-h', '-i', '-M', '-n', '-R', '-r', '-V'))
    for a in args(items, '--sort'):
        glob += {'numeric': 'n', 'general-numeric': 'g', 'human-numeric': 'h', 'month': 'M', 'version': 'V', 'random': 'R'}[a]
    keys = []
    for k in args(items, '-k'):
        m = re.match(r'(\d+)(?:\.(\d+))?([a-zA-Z]*)(?:,(\d+)(?:\.(\d+))?([a-zA-Z]*))?$', k)
        o = m.group(3) + (m.group(6) or '')
        keys.append((int(m.group(1)), int(m.group(2) or 1), int(m.group(4)) if m.group(4) else None, int(m.group(5) or 0),
                     (o, 'b' in m.group(3), 'b' in (m.group(6) or '')) if o else (glob, 'b' in glob, 'b' in glob)))
    return glob, keys


def extract(line, key, sep):
    f1, c1, f2, c2, (o, bs, be) = key
    if sep is None:
        fields, i = [], 0
        while i < len(line):
            j = i
            while j < len(line) and line[j] in ' \t':
                j += 1
            while j < len(line) and line[j] not in ' \t':
                j += 1
            fields.append((i, j))
            i = j
    else:
        fields, i = [], 0
        for part in line.split(sep):
            fields.append((i, i + len(part)))
            i += len(part) + 1
    n = len(line)

    def start(f):
        return fields[f - 1][0] if f <= len(fields) else n
    a = start(f1)
    if bs:
        while a < n and line[a] in ' \t':
            a += 1
    a = min(n, a + c1 - 1)
    if f2 is None:
        z = n
    elif c2 == 0:
        z = fields[f2 - 1][1] if f2 <= len(fields) else n
    else:
        z = start(f2)
        if be:
            while z < n and line[z] in ' \t':
                z += 1
        z = min(n, z + c2)
    return line[a:max(a, z)]


def sort_cmp_(items):
    glob, keys = sort_keys(items)
    sep = (args(items, '-t') or [None])[-1]
    stable, unique = on(items, '-s'), on(items, '-u')

    def key_cmp(a, b):
        if keys:
            for k in keys:
                x, y = extract(a, k, sep), extract(b, k, sep)
                r = compare_by(k[4][0].replace('b', ''), x, y)
                if r:
                    return -r if 'r' in k[4][0] else r
            return 0
        if glob.strip('r') == '':
            return 0 if not (unique or stable) else (-1 if 'r' in glob else 1) * ((a > b) - (a < b))
        r = compare_by(glob, a, b)
        return -r if 'r' in glob else r

    def full(a, b):
        r = key_cmp(a, b)
        if r or ((stable or unique) and (keys or True)):
            return r
        r = (a > b) - (a < b)
        return -r if 'r' in glob else r
    return full


def sort(items, strs, text):
    if on(items, '-m'):
        return merge(items, [text])
    if unmodelled_sort(items):
        return None
    if on(items, '-c', '-C'):
        return ''
    full = sort_cmp(items)
    return finish_sort(items, full, sorted(records(text, NL), key=cmp_to_key(full)))


def unmodelled_sort(items):
    return on(items, '-R', '-z', '--debug') or 'random' in args(items, '--sort') or any('R' in a for a in args(items, '-k'))


def finish_sort(items, full, ls):
    if on(items, '-u'):
        out = []
        for l in ls:
            if not out or full(out[-1], l):
                out.append(l)
        ls = out
    return ''.join(l + NL for l in ls)


def merge(items, texts):
    """sort -m of files: repeatedly take the least of the first lines, the earlier file on a tie."""
    if unmodelled_sort(items):
        return None
    if on(items, '-c', '-C'):
        return ''
    full = sort_cmp(items)
    heads, out = [records(t, NL) for t in texts], []
    while any(heads):
        best = None
        for h in heads:
            if h and (best is None or full(best[0], h[0]) > 0):
                best = h
        out.append(best.pop(0))
    return finish_sort(items, full, out)


# ------------------------------------------------------------------ uniq
def uniq(items, strs, text):
    if on(items, '-z', '-D', '--all-repeated', '--all-repeated=prepend', '--all-repeated=separate', '--group', '--group=prepend',
          '--group=append', '--group=both'):
        return None
    sf = int((args(items, '-f') or ['0'])[-1])
    sc = int((args(items, '-s') or ['0'])[-1])
    w = int((args(items, '-w') or ['1000'])[-1])

    def key(s):
        for _ in range(sf):
            s = re.sub(r'^[ \t]*[^ \t]*', '', s)
        s = s[sc:][:w]
        return s.upper() if on(items, '-i') else s
    groups = []
    for l in records(text, NL):
        if groups and key(groups[-1][0]) == key(l):
            groups[-1][1] += 1
        else:
            groups.append([l, 1])
    out = []
    for b, n in groups:
        if on(items, '-d') and n < 2 or on(items, '-u') and n > 1:
            continue
        out.append(('%7d ' % n if on(items, '-c') else '') + b + NL)
    return ''.join(out)


# ------------------------------------------------------------------ sed
def sed_parse(text):
    """[(addresses, negated, command, argument)] for one-line commands separated by ; or newlines."""
    out, i = [], 0
    while i < len(text):
        if text[i] in ' ;\n':
            i += 1
            continue
        addrs = []
        while True:
            m = re.match(r'(\d+)', text[i:])
            if m:
                addrs.append(int(m.group(1)))
                i += m.end()
            elif text[i] == '$':
                addrs.append('$')
                i += 1
            elif text[i] == '/':
                j = text.index('/', i + 1)
                addrs.append(('re', text[i + 1:j]))
                i = j + 1
            if i < len(text) and text[i] == ',' and len(addrs) == 1:
                i += 1
                continue
            break
        while text[i] == ' ':
            i += 1
        neg = text[i] == '!'
        if neg:
            i += 1
        c = text[i]
        i += 1
        arg = None
        if c in 'sy':
            d = text[i]
            j = text.index(d, i + 1)
            k = text.index(d, j + 1)
            e = k + 1
            while e < len(text) and text[e] not in ';\n':
                e += 1
            arg = (text[i + 1:j], text[j + 1:k], text[k + 1:e].strip())
            i = e
        elif c in 'aic':
            e = text.find('\n', i)
            e = len(text) if e < 0 else e
            arg = text[i:e].lstrip(' ')
            i = e
        out.append((addrs, neg, c, arg))
    return out


def sed(items, strs, text):
    scripts = args(items, '-e') or strs[:1]
    if on(items, '-i', '--debug', '-z', '-f'):
        return None
    return sed_run(sed_parse(NL.join(scripts)), text.splitlines(True), on(items, '-n'))


def sed_run(prog, ls, quiet):
    recs = [(l[:-1], True) if l.endswith(NL) else (l, False) for l in ls]
    out, hold, active, hterm = [], '', {}, True
    n = 0

    def emit(t, term=True):
        # output after a line without a newline first completes that line
        if out and not out[-1].endswith(NL):
            out[-1] += NL
        out.append(t + (NL if term else ''))

    def addr(a, ps, n):
        if a == '$':
            return n == len(recs)
        if isinstance(a, tuple):
            return re.search(a[1], ps) is not None
        return n == a

    def selects(k, addrs, ps, n):
        if not addrs:
            return True
        if len(addrs) == 1:
            return addr(addrs[0], ps, n)
        if active.get(k):
            if isinstance(addrs[1], int) and n >= addrs[1]:
                active[k] = False
                return n == addrs[1]
            if addr(addrs[1], ps, n):
                active[k] = False
            return True
        if addr(addrs[0], ps, n):
            active[k] = not (isinstance(addrs[1], int) and addrs[1] <= n) and not (addrs[1] == '$' and n == len(recs))
            return True
        return False
    keep = None
    while n < len(recs) or keep is not None:
        if keep is None:
            ps, term = recs[n]
            n += 1
        else:
            ps, keep = keep, None
        pending, done, quit_ = [], False, False
        pc = 0
        while pc < len(prog):
            addrs, neg, c, arg = prog[pc]
            k = pc
            pc += 1
            if selects(k, addrs, ps, n) == neg:
                continue
            if c == 's':
                fl = arg[2]
                rep = arg[1].replace('\\n', NL).replace('&', '\\g<0>')
                ps2, m = re.subn(arg[0], rep, ps, count=0 if 'g' in fl else 1, flags=re.I if 'i' in fl or 'I' in fl else 0)
                if m and 'p' in fl:
                    emit(ps2, term)
                ps = ps2
            elif c == 'y':
                ps = ps.translate({ord(a): b for a, b in zip(arg[0], arg[1])})
            elif c == 'p':
                emit(ps, term)
            elif c == 'd':
                done = True
                break
            elif c == 'D':
                if NL in ps:
                    keep = ps.split(NL, 1)[1]
                done = True
                break
            elif c == 'P':
                emit(ps.split(NL, 1)[0])
            elif c == '=':
                emit(str(n))
            elif c == 'q':
                quit_ = done = True
                if not quiet:
                    emit(ps)
                break
            elif c == 'n':
                if n >= len(recs):
                    quit_ = True
                    break
                if not quiet:
                    emit(ps, term)
                ps, term = recs[n]
                n += 1
            elif c == 'N':
                if n >= len(recs):
                    quit_ = True
                    break
                ps = ps + NL + recs[n][0]
                term = recs[n][1]
                n += 1
            elif c == 'G':
                ps, term = ps + NL + hold, hterm
            elif c == 'H':
                hold, hterm = hold + NL + ps, term
            elif c == 'g':
                ps, term = hold, hterm
            elif c == 'h':
                hold, hterm = ps, term
            elif c == 'x':
                ps, hold, term, hterm = hold, ps, hterm, term
            elif c == 'a':
                pending.append(arg)
            elif c == 'i':
                emit(arg)
            elif c == 'c':
                emit(arg)
                done = True
                break
        if not done and not quiet:
            emit(ps, term)
        for t in pending:
            emit(t)
        if quit_:
            break
    return ''.join(out)
