"""Regular expressions over symbolic strings: a backtracking matcher whose character tests are solver terms.

A search yields the possible matches in the order in which `re` tries them, each with the condition under which it applies;
a match is the first whose condition holds. Constructs outside of this raise Limit."""
import re
import re._constants as C
import re._parser as P

from . import core
from .core import Limit, RS, SxVal, g_and, g_or, g_not, c_eq, mk, rs

_CAT = {C.CATEGORY_DIGIT: [(48, 57)], C.CATEGORY_SPACE: [(9, 13), (28, 32)], C.CATEGORY_WORD: [(48, 57), (65, 90), (95, 95), (97, 122)]}
_NEG = {C.CATEGORY_NOT_DIGIT: C.CATEGORY_DIGIT, C.CATEGORY_NOT_SPACE: C.CATEGORY_SPACE, C.CATEGORY_NOT_WORD: C.CATEGORY_WORD}
CAP = 400


def _lit(c, code, ic):
    if ic and (65 <= code <= 90 or 97 <= code <= 122):
        return g_or(c_eq(c, code), c_eq(c, code ^ 32))
    return c_eq(c, code)


def _rng(c, lo, hi, ic):
    g = core._range(c, lo, hi)
    if not ic:
        return g
    alts = [g]
    for code in range(max(lo, 65), min(hi, 122) + 1):
        if chr(code).isalpha():
            alts.append(c_eq(c, code ^ 32))
    return g_or(*alts)


def _category(c, cat):
    if cat in _NEG:
        return g_not(_category(c, _NEG[cat]))
    if cat not in _CAT:
        raise Limit('regular expression category')
    return g_or(*[core._range(c, lo, hi) for lo, hi in _CAT[cat]])


class Matcher:
    def __init__(self, pat):
        self.pat = pat
        self.tree = P.parse(pat.pattern, pat.flags & ~re.UNICODE & ~re.ASCII)
        self.ic = bool(pat.flags & re.IGNORECASE)
        self.steps = 0

    def one(self, op, av, c):
        if op is C.LITERAL:
            return _lit(c, av, self.ic)
        if op is C.NOT_LITERAL:
            return g_not(_lit(c, av, self.ic))
        if op is C.ANY:
            return True if self.pat.flags & re.DOTALL else g_not(c_eq(c, 10))
        neg, gs = False, []
        for o, a in av:
            if o is C.NEGATE:
                neg = True
            elif o is C.LITERAL:
                gs.append(_lit(c, a, self.ic))
            elif o is C.RANGE:
                gs.append(_rng(c, a[0], a[1], self.ic))
            elif o is C.CATEGORY:
                gs.append(_category(c, a))
            else:
                raise Limit('regular expression set')
        g = g_or(*gs)
        return g_not(g) if neg else g

    def seq(self, nodes, i, ch, pos, groups, cont):
        """(guard, end, groups) in order of preference."""
        self.steps += 1
        if self.steps > 20000:
            raise Limit('regular expression too costly')
        if i == len(nodes):
            yield from cont(pos, groups)
            return
        op, av = nodes[i]

        def rest(p, gr):
            return self.seq(nodes, i + 1, ch, p, gr, cont)
        if op in (C.LITERAL, C.NOT_LITERAL, C.ANY, C.IN):
            if pos < len(ch):
                g = self.one(op, av, ch[pos])
                if g is not False:
                    for g2, p, gr in rest(pos + 1, groups):
                        yield g_and(g, g2), p, gr
        elif op is C.SUBPATTERN:
            group, add, drop, sub = av
            if add or drop:
                raise Limit('regular expression flags in a group')

            def close(p, gr):
                if group is not None:
                    gr = dict(gr)
                    gr[group] = (pos, p)
                    gr['last'] = group
                return rest(p, gr)
            yield from self.seq(sub, 0, ch, pos, groups, close)
        elif op is C.BRANCH:
            for sub in av[1]:
                yield from self.seq(sub, 0, ch, pos, groups, rest)
        elif op in (C.MAX_REPEAT, C.MIN_REPEAT):
            lo, hi, sub = av

            def rep(n, p, gr):
                def more():
                    if hi is C.MAXREPEAT or n < hi:
                        def again(p2, gr2):
                            if p2 == p and n >= lo:
                                return iter(())
                            return rep(n + 1, p2, gr2)
                        yield from self.seq(sub, 0, ch, p, gr, again)
                if op is C.MAX_REPEAT:
                    yield from more()
                    if n >= lo:
                        yield from rest(p, gr)
                else:
                    if n >= lo:
                        yield from rest(p, gr)
                    yield from more()
            yield from rep(0, pos, groups)
        elif op is C.AT:
            m = self.pat.flags & re.MULTILINE
            if av is C.AT_BEGINNING_STRING or av is C.AT_BEGINNING:
                g = pos == 0
                if not g and m and av is C.AT_BEGINNING:
                    g = c_eq(ch[pos - 1], 10)
            elif av is C.AT_END_STRING:
                g = pos == len(ch)
            elif av is C.AT_END:
                g = pos == len(ch) or ((m or pos == len(ch) - 1) and c_eq(ch[pos], 10))
            elif av in (C.AT_BOUNDARY, C.AT_NON_BOUNDARY):
                a = _category(ch[pos - 1], C.CATEGORY_WORD) if pos else False
                b = _category(ch[pos], C.CATEGORY_WORD) if pos < len(ch) else False
                g = g_or(g_and(a, g_not(b)), g_and(g_not(a), b))
                if av is C.AT_NON_BOUNDARY:
                    g = g_not(g)
            else:
                raise Limit('regular expression position')
            if g is not False:
                for g2, p, gr in rest(pos, groups):
                    yield g_and(g, g2), p, gr
        elif op in (C.ASSERT, C.ASSERT_NOT):
            direction, sub = av
            start = pos
            if direction < 0:
                w, w2 = sub.getwidth()
                if w != w2:
                    raise Limit('regular expression look-behind')
                start = pos - w
            g = False
            if start >= 0:
                g = g_or(*[g2 for g2, p, gr in self.seq(sub, 0, ch, start, groups, lambda p, gr: iter([(True, p, gr)]))
                           if direction > 0 or p == pos])
            if op is C.ASSERT_NOT:
                g = g_not(g)
            if g is not False:
                for g2, p, gr in rest(pos, groups):
                    yield g_and(g, g2), p, gr
        elif op is C.GROUPREF:
            if av in groups:
                a, b = groups[av]
                n = b - a
                if pos + n <= len(ch):
                    g = g_and(*[c_eq(ch[a + k], ch[pos + k]) for k in range(n)])
                    if g is not False:
                        for g2, p, gr in rest(pos + n, groups):
                            yield g_and(g, g2), p, gr
        else:
            raise Limit('regular expression construct %s' % op)

    def at(self, ch, pos, full=False, nonempty=False):
        for g, p, gr in self.seq(self.tree, 0, ch, pos, {}, lambda p, gr: iter([(True, p, gr)])):
            if (full and p != len(ch)) or (nonempty and p == pos):
                continue
            yield g, p, gr

    def find(self, ch, kind, start=0, nonempty=False):
        """[(guard, groups or None)]: disjoint and exhaustive."""
        self.steps = 0
        out, none = [], True
        for s in range(start, len(ch) + 1) if kind == 'search' else (start,):
            for g, p, gr in self.at(ch, s, kind == 'fullmatch', nonempty and s == start):
                gg = g_and(none, g)
                none = g_and(none, g_not(g))
                if gg is not False and core.CUR.quick(gg) is not False:
                    gr = dict(gr)
                    gr[0] = (s, p)
                    out.append((gg, gr))
                    if len(out) > CAP:
                        raise Limit('regular expression with too many matches')
                if none is False:
                    break
            if none is False:
                break
        if none is not False:
            out.append((none, None))
        return out

    def all(self, ch):
        """[(guard, list of groups)]: every way the successive matches can fall."""
        out = []

        def go(g, start, nonempty, acc):
            if start > len(ch):
                out.append((g, acc))
                return
            for g2, gr in self.find(ch, 'search', start, nonempty):
                gg = g_and(g, g2)
                if gg is False or core.CUR.quick(gg) is False:
                    continue
                if gr is None:
                    out.append((gg, acc))
                else:
                    go(gg, gr[0][1], gr[0][0] == gr[0][1], acc + [gr])
                if len(out) > CAP:
                    raise Limit('regular expression with too many matches')
        go(True, 0, False, [])
        return out


def _sub(ch, span):
    return rs(ch[span[0]:span[1]]) if span is not None else None


class SxMatch:
    """A match; which one is decided by its guards."""

    def __init__(self, pat, alts, string):
        self.re, self.alts, self.string = pat, alts, string     # alts: (guard, chars, groups)

    def _index(self, i):
        if isinstance(i, str):
            i = self.re.groupindex.get(i, -1)
        if type(i) is not int or not 0 <= i <= self.re.groups:
            raise IndexError('no such group')
        return i

    def _one(self, i, default=None):
        i = self._index(i)
        return mk([(g, _sub(ch, gr.get(i)) if i in gr else default) for g, ch, gr in self.alts])

    def group(self, *ids):
        if not ids:
            return self._one(0)
        return self._one(ids[0]) if len(ids) == 1 else tuple(self._one(i) for i in ids)

    __getitem__ = _one

    def groups(self, default=None):
        return tuple(self._one(i, default) for i in range(1, self.re.groups + 1))

    def groupdict(self, default=None):
        return {n: self._one(i, default) for n, i in self.re.groupindex.items()}

    def span(self, i=0):
        return self.start(i), self.end(i)

    def start(self, i=0):
        i = self._index(i)
        return mk([(g, gr.get(i, (-1, -1))[0]) for g, ch, gr in self.alts])

    def end(self, i=0):
        i = self._index(i)
        return mk([(g, gr.get(i, (-1, -1))[1]) for g, ch, gr in self.alts])

    @property
    def lastindex(self):
        return mk([(g, gr.get('last')) for g, ch, gr in self.alts])

    def __bool__(self):
        return True


def _strings(s):
    for g, v in s.alts:
        if not core.is_strval(v):
            raise Limit('regular expression over another value')
        if core.CUR.quick(g) is not False:
            yield g, core.chars_of(v)


def _template(repl, pat):
    """[str or group number]"""
    r = P.parse_template(repl, pat)
    if isinstance(r, tuple):        # older format
        groups, lits = r
        lits = list(lits)
        for i, g in groups:
            lits[i] = g
        return lits
    return list(r)


def call(pat, name, args, kw):
    """Pattern method on a symbolic string; None means: not handled here."""
    args = list(args)
    sub = name in ('sub', 'subn')
    k = 1 if sub else 0
    if kw or len(args) != k + 1 or type(args[k]) is not SxVal or not args[k].is_str() or isinstance(pat.pattern, bytes):
        return NotImplemented
    s = args[k]
    M = Matcher(pat)
    if name in ('match', 'fullmatch', 'search'):
        alts = []
        for g, ch in _strings(s):
            for g2, gr in M.find(tuple(ch), name):
                if gr is not None:
                    alts.append((g_and(g, g2), tuple(ch), gr))
        alts = [a for a in alts if a[0] is not False]
        if not alts or not core.CUR.branch(g_or(*[a[0] for a in alts])):
            return None
        return SxMatch(pat, [a for a in alts if core.CUR.quick(a[0]) is not False], s)
    if name not in ('findall', 'finditer', 'split', 'sub'):
        return NotImplemented
    res = []
    for g, ch in _strings(s):
        ch = tuple(ch)
        for g2, ms in M.all(ch):
            gg = g_and(g, g2)
            if gg is False or core.CUR.quick(gg) is False:
                continue
            res.append((gg, ch, ms))
    if name == 'sub':
        out = []
        if type(args[0]) is not str:
            raise Limit('substitution by a function or a symbolic text')
        tmpl = _template(args[0], pat)
        for gg, ch, ms in res:
            acc, at = (), 0
            for gr in ms:
                acc += ch[at:gr[0][0]]
                for t in tmpl:
                    acc += tuple(ch[slice(*gr[t])]) if type(t) is int and t in gr else () if type(t) is int else tuple(ord(c) for c in t)
                at = gr[0][1]
            out.append((gg, rs(acc + ch[at:])))
        return mk(out)
    # lists: one path for each way
    gg, ch, ms = res[core.CUR.multi([r[0] for r in res])] if len(res) > 1 else res[0]
    if name == 'finditer':
        return iter([SxMatch(pat, [(True, ch, gr)], core.wrap(rs(ch))) for gr in ms])
    n = pat.groups
    if name == 'findall':
        out = []
        for gr in ms:
            t = tuple(core.wrap(_sub(ch, gr[i]) if i in gr else '') for i in (range(1, n + 1) if n else (0,)))
            out.append(t if n > 1 else t[0])
        return out
    out, at = [], 0
    for gr in ms:
        out.append(core.wrap(rs(ch[at:gr[0][0]])))
        out += [core.wrap(_sub(ch, gr.get(i))) if i in gr else None for i in range(1, n + 1)]
        at = gr[0][1]
    return out + [core.wrap(rs(ch[at:]))]
