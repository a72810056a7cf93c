"""Symbolic execution core: path exploration over z3 and guarded-union values.

Sx values:
  SxBool  - a symbolic truth value (z3 Bool); its __bool__ branches.
  SxVal   - a finite guarded union of concrete Python values (str, int, enum members ...) and of RS strings,
            i.e. strings of known length whose characters may be z3 8-bit vectors.
All operations are exact within the declared input domains; where an operation is not supported the value is
split by cases (choose), and where that is impossible a Limit is raised, which the runner reports as inconclusive.
"""
import time
import z3


class Signal(BaseException):
    pass


class PathAbort(Signal):
    """The path is infeasible (a failed assumption)."""


class Limit(Signal):
    """The executor cannot continue this path symbolically."""


class StopTask(Signal):
    pass


# ----------------------------------------------------------------------------- guards
# A guard is a Python bool or a z3 BoolRef. META maps expression ids to (IdxVar, frozenset of values).
META = {}
_KEEP = []


class IdxVar:
    """A symbolic index 0..n-1 selecting an alternative."""
    _all = {}

    def __init__(self, name, n):
        self.name, self.n = name, n
        w = max(1, (n - 1).bit_length())
        self.term = z3.BitVec(name, w)
        self.full = frozenset(range(n))
        self.cache = {}
        self.dom_constraint = z3.ULE(self.term, n - 1) if n < (1 << w) else True

    @classmethod
    def get(cls, name, n):
        k = (name, n)
        if k not in cls._all:
            cls._all[k] = cls('%s#%d' % (name, n), n)
        return cls._all[k]

    def isin(self, s):
        s = frozenset(s)
        if not s:
            return False
        if len(s) == self.n:
            return True
        e = self.cache.get(s)
        if e is None:
            parts = []
            xs = sorted(s)
            i = 0
            while i < len(xs):
                j = i
                while j + 1 < len(xs) and xs[j + 1] == xs[j] + 1:
                    j += 1
                if i == j:
                    parts.append(self.term == xs[i])
                elif j == i + 1:
                    parts += [self.term == xs[i], self.term == xs[j]]
                else:
                    lo, hi = xs[i], xs[j]
                    c = []
                    if lo > 0:
                        c.append(z3.UGE(self.term, lo))
                    c.append(z3.ULE(self.term, hi))
                    parts.append(z3.And(c) if len(c) > 1 else c[0])
                i = j + 1
            e = parts[0] if len(parts) == 1 else z3.Or(parts)
            self.cache[s] = e
            META[e.get_id()] = (self, s)
            _KEEP.append(e)
        return e


_NOT = {}


def g_not(g):
    if g is True:
        return False
    if g is False:
        return True
    i = g.get_id()
    m = META.get(i)
    if m:
        return m[0].isin(m[0].full - m[1])
    e = _NOT.get(i)
    if e is None:
        e = z3.Not(g)
        _NOT[i] = e
        _KEEP.append(g)
        _KEEP.append(e)
        _NOT[e.get_id()] = g
    return e


_AND = {}
_OR = {}


def _combine(gs, is_and):
    byvar = {}
    rest = {}
    for g in gs:
        if g is True:
            if is_and:
                continue
            return True
        if g is False:
            if is_and:
                return False
            continue
        m = META.get(g.get_id())
        if m:
            v, s = m
            if v in byvar:
                byvar[v] = (byvar[v] & s) if is_and else (byvar[v] | s)
            else:
                byvar[v] = s
        else:
            rest[g.get_id()] = g
    out = []
    for v, s in byvar.items():
        e = v.isin(s)
        if e is True:
            if not is_and:
                return True
            continue
        if e is False:
            if is_and:
                return False
            continue
        out.append(e)
    out.extend(rest.values())
    if not out:
        return is_and
    if len(out) == 1:
        return out[0]
    key = tuple(sorted(e.get_id() for e in out))
    tab = _AND if is_and else _OR
    e = tab.get(key)
    if e is None:
        e = z3.And(out) if is_and else z3.Or(out)
        tab[key] = e
        _KEEP.extend(out)
        _KEEP.append(e)
    return e


def g_and(*gs):
    return _combine(gs, True)


def g_or(*gs):
    return _combine(gs, False)


# ----------------------------------------------------------------------------- engine
class Decision:
    __slots__ = ('exprs', 'cur', 'pushed', 'site')

    def __init__(self, exprs, cur, pushed):
        self.exprs, self.cur, self.pushed, self.site = exprs, cur, pushed, None


class Engine:
    def __init__(self, query_timeout_ms=20000):
        self.s = z3.Solver()
        self.s.set('timeout', query_timeout_ms)
        self.stats = dict(paths=0, branches=0, forks=0, queries=0, solver_s=0.0, unknown=0, checks=0,
                          obligations=0, aborted=0)
        self.prefix = []
        self.pos = 0
        self.dom = {}
        self.base_consts = set()

    # -- solver
    def _check(self, *extra):
        self.stats['queries'] += 1
        t = time.time()
        r = self.s.check(*extra)
        self.stats['solver_s'] += time.time() - t
        if r == z3.unknown:
            self.stats['unknown'] += 1
        return r

    def sat_with(self, g):
        """z3 result for path /\\ g."""
        if g is True:
            return self._check()
        if g is False:
            return z3.unsat
        return self._check(g)

    # -- paths
    def begin(self):
        self.pos = 0
        self.dom = {}

    def _narrow(self, g):
        if isinstance(g, bool):
            return
        m = META.get(g.get_id())
        if m:
            v, s = m
            d = self.dom.get(v)
            self.dom[v] = s if d is None else (d & s)

    def quick(self, g):
        """Domain reasoning: True/False if decided by the recorded domain of one index variable, else None."""
        if isinstance(g, bool):
            return g
        m = META.get(g.get_id())
        if m:
            v, s = m
            d = self.dom.get(v)
            if d is not None:
                if d <= s:
                    return True
                if not (d & s):
                    return False
        return None

    def branch(self, g):
        q = self.quick(g)
        if q is not None:
            return q
        return self.multi([g, g_not(g)]) == 0

    def multi(self, exprs):
        """Choose one of several mutually exclusive, jointly exhaustive guards."""
        ids = [e if isinstance(e, bool) else e.get_id() for e in exprs]
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
            if [e if isinstance(e, bool) else e.get_id() for e in d.exprs] != ids:
                raise Limit('nondeterministic re-execution')
            self.pos += 1
            self._narrow(d.exprs[d.cur])
            return d.cur
        self.stats['branches'] += 1
        feas = []
        for i, e in enumerate(exprs):
            q = self.quick(e)
            if q is False:
                continue
            if i == len(exprs) - 1 and not feas:
                feas.append(i)      # the path itself is feasible and the options are exhaustive
                break
            if self.sat_with(e) != z3.unsat:
                feas.append(i)
                if len(feas) == 2:
                    break
        if not feas:
            raise PathAbort()
        d = Decision(exprs, feas[0], len(feas) > 1)
        if d.pushed:
            self.stats['forks'] += 1
            self.s.push()
            e = exprs[d.cur]
            if e is not True:
                self.s.add(e)
        self.prefix.append(d)
        self.pos += 1
        self._narrow(exprs[d.cur])
        return d.cur

    def assume(self, g):
        if g is True:
            return
        if g is False:
            raise PathAbort()
        if self.quick(g) is True:
            return
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
            if isinstance(d.exprs[0], bool) or d.exprs[0].get_id() != g.get_id():
                raise Limit('nondeterministic re-execution')
            self.pos += 1
            self._narrow(g)
            return
        if self.sat_with(g) == z3.unsat:
            raise PathAbort()
        d = Decision([g], 0, True)
        self.s.push()
        self.s.add(g)
        self.prefix.append(d)
        self.pos += 1
        self._narrow(g)

    def backtrack(self):
        """Move to the next unexplored path; False if none is left."""
        while self.prefix:
            d = self.prefix[-1]
            if d.pushed:
                self.s.pop()
                nxt = d.cur + 1
                while nxt < len(d.exprs):
                    e = d.exprs[nxt]
                    if e is not False and self.sat_with(e) != z3.unsat:
                        d.cur = nxt
                        self.s.push()
                        if e is not True:
                            self.s.add(e)
                        return True
                    nxt += 1
            self.prefix.pop()
        return False

    def declare(self, expr):
        """A domain constraint on a fresh input (asserted along the path like an assumption)."""
        self.assume(expr)


CUR = None      # the engine in use


def set_engine(e):
    global CUR
    CUR = e


# ----------------------------------------------------------------------------- strings with symbolic characters
class RS:
    """String of known length with int (concrete) or BitVec(8) characters; at least one symbolic."""
    __slots__ = ('ch', 'key')

    def __init__(self, ch):
        self.ch = ch
        self.key = tuple(c if type(c) is int else ('v', c.get_id()) for c in ch)

    def __len__(self):
        return len(self.ch)


def rs(chars):
    chars = tuple(chars)
    for c in chars:
        if type(c) is not int:
            return RS(chars)
    return ''.join(map(chr, chars))


def chars_of(v):
    return v.ch if type(v) is RS else tuple(map(ord, v))


_CEQ = {}


def c_eq(a, b):
    if type(a) is int and type(b) is int:
        return a == b
    if type(a) is int:
        a, b = b, a
    if type(b) is int:
        if b > 255:
            return False
        k = (a.get_id(), b)
    else:
        if a.get_id() == b.get_id():
            return True
        k = (a.get_id(), ('v', b.get_id()))
    e = _CEQ.get(k)
    if e is None:
        e = a == b
        _CEQ[k] = e
        _KEEP.extend([a, e] + ([b] if type(b) is not int else []))
    return e


def c_in(c, codes):
    """Guard: character c is one of the given int codes."""
    if type(c) is int:
        return c in codes
    return g_or(*[c_eq(c, k) for k in codes])


def s_eq(a, b):
    """Guard for equality of str/RS values."""
    if type(a) is str and type(b) is str:
        return a == b
    if len(a) != len(b):
        return False
    return g_and(*[c_eq(x, y) for x, y in zip(chars_of(a), chars_of(b))])


def is_strval(v):
    return type(v) is RS or isinstance(v, str)


class _Raise:
    __slots__ = ('exc',)

    def __init__(self, exc):
        self.exc = exc


class Fork:
    """Returned by a lifted function: the outcome for this alternative is decided by further guards."""
    __slots__ = ('alts',)

    def __init__(self, alts):
        self.alts = alts


def _vkey(v):
    if type(v) is RS:
        return ('rs', v.key)
    t = type(v)
    if t in (str, int, bool, type(None), float):
        return (t, v)
    if t in (tuple,):
        try:
            return (t, tuple(_vkey(x) for x in v))
        except TypeError:
            return ('id', id(v))
    return ('id', id(v))


def mk(pairs):
    """Build a value from (guard, value) pairs, merging equal ones."""
    tab = {}
    order = []
    for g, v in pairs:
        if g is False:
            continue
        if type(v) is SxVal:
            for g2, v2 in v.alts:
                gg = g_and(g, g2)
                if gg is False:
                    continue
                k = _vkey(v2)
                if k in tab:
                    tab[k][0].append(gg)
                else:
                    tab[k] = ([gg], v2)
            continue
        k = _vkey(v)
        if k in tab:
            tab[k][0].append(g)
        else:
            tab[k] = ([g], v)
    out = []
    for gs, v in tab.values():
        g = g_or(*gs)
        if CUR is not None and CUR.quick(g) is False:
            continue
        out.append((g, v))
    if not out:
        raise PathAbort()
    if len(out) == 1 and type(out[0][1]) is not RS:
        return out[0][1]
    return SxVal(out)


def mkbool(g):
    if isinstance(g, bool):
        return g
    return SxBool(g)


def guard_of(x):
    """Guard of a bool-like."""
    if isinstance(x, bool):
        return x
    if type(x) is SxBool:
        return x.g
    if type(x) is SxVal:
        return x._truth()
    if isinstance(x, z3.BoolRef):
        return x
    return bool(x)


class SxBool:
    __slots__ = ('g',)

    def __init__(self, g):
        self.g = g

    def __bool__(self):
        return CUR.branch(self.g)

    def __and__(self, o):
        return mkbool(g_and(self.g, guard_of(o)))
    __rand__ = __and__

    def __or__(self, o):
        return mkbool(g_or(self.g, guard_of(o)))
    __ror__ = __or__

    def __invert__(self):
        return mkbool(g_not(self.g))

    def __xor__(self, o):
        h = guard_of(o)
        return mkbool(g_or(g_and(self.g, g_not(h)), g_and(g_not(self.g), h)))
    __rxor__ = __xor__

    def __eq__(self, o):
        if isinstance(o, (bool, SxBool)):
            h = guard_of(o)
            return mkbool(g_or(g_and(self.g, h), g_and(g_not(self.g), g_not(h))))
        return bool(self) == o

    def __ne__(self, o):
        r = self.__eq__(o)
        return ~r if type(r) is SxBool else not r

    def __hash__(self):
        return hash(bool(self))

    def _int(self):
        return 1 if bool(self) else 0

    def __index__(self):
        return self._int()

    def __int__(self):
        return self._int()

    def __add__(self, o):
        return self._int() + o
    __radd__ = __add__

    def __str__(self):
        return str(bool(self))

    def __repr__(self):
        return '<SxBool>'

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self


class SxVal:
    __slots__ = ('alts',)

    def __init__(self, alts):
        self.alts = alts

    # -- structure
    def is_str(self):
        return all(is_strval(v) for g, v in self.alts)

    def choose(self):
        """Fork to a single alternative (may still be an RS)."""
        if len(self.alts) == 1:
            return self.alts[0][1]
        i = CUR.multi([g for g, v in self.alts])
        return self.alts[i][1]

    def concrete(self):
        """Fork to a fully concrete value; RS strings are split by their characters' models, else Limit."""
        v = self.choose()
        if type(v) is RS:
            return realise_rs(v)
        return v

    def map(self, f):
        return lift(f, self)

    def _truth(self):
        return g_or(*[g for g, v in self.alts if (len(v) > 0 if type(v) is RS else bool(v))])

    def __bool__(self):
        return CUR.branch(self._truth())

    def __eq__(self, o):
        return mkbool(eq_guard(self, o))

    def __ne__(self, o):
        return mkbool(g_not(eq_guard(self, o)))

    def __hash__(self):
        return hash(self.concrete())

    def __index__(self):
        v = self.concrete()
        return v.__index__()

    def __int__(self):
        return int(self.concrete())

    def __float__(self):
        return float(self.concrete())

    def __str__(self):
        return str(self.concrete())

    def __repr__(self):
        return '<SxVal %d>' % len(self.alts)

    def __format__(self, spec):
        return format(self.concrete(), spec)

    def __fspath__(self):
        return self.concrete()

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __len__(self):
        r = sx_len(self)
        return r.concrete() if type(r) is SxVal else r

    def __iter__(self):
        # fork on length, then yield per-position unions
        ln = sx_len(self)
        n = ln.concrete() if type(ln) is SxVal else ln
        pairs = [(g, v) for g, v in self.alts if len(v) == n]
        for i in range(n):
            yield mk([(g, _at(v, i)) for g, v in pairs])

    def __contains__(self, item):
        return bool(sx_contains(item, self))

    def __getitem__(self, k):
        return sx_index(self, k)

    def __add__(self, o):
        return lift2(_add, self, o)

    def __radd__(self, o):
        return lift2(_add, o, self)

    def __sub__(self, o):
        return lift2(lambda a, b: a - b, self, o)

    def __rsub__(self, o):
        return lift2(lambda a, b: a - b, o, self)

    def __mul__(self, o):
        return lift2(_mul, self, o)
    __rmul__ = __mul__

    def __mod__(self, o):
        return lift2(lambda a, b: a % b, self, o)

    def __floordiv__(self, o):
        return lift2(lambda a, b: a // b, self, o)

    def __neg__(self):
        return lift(lambda a: -a, self)

    def __lt__(self, o):
        return lift2(_lt, self, o)

    def __le__(self, o):
        return lift2(lambda a, b: _neg(_lt(b, a)), self, o)

    def __gt__(self, o):
        return lift2(lambda a, b: _lt(b, a), self, o)

    def __ge__(self, o):
        return lift2(lambda a, b: _neg(_lt(a, b)), self, o)

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        if self.is_str():
            if not hasattr('', name):
                raise AttributeError("'str' object has no attribute %r" % name)
            return SxMethod(self, name)
        vals = [getattr(v, name) if type(v) is not RS else None for g, v in self.alts]
        if all(callable(x) for x in vals):
            return SxMethod(self, name)
        return mk([(g, x) for (g, v), x in zip(self.alts, vals)])


def _neg(x):
    if isinstance(x, bool):
        return not x
    return g_not(x)


def _mul(a, b):
    if type(a) is RS:
        return rs(a.ch * b)
    if type(b) is RS:
        return rs(b.ch * a)
    return a * b


def _add(a, b):
    if type(a) is RS or type(b) is RS:
        if not (is_strval(a) and is_strval(b)):
            raise TypeError('can only concatenate str')
        return rs(chars_of(a) + chars_of(b))
    return a + b


def _lt(a, b):
    if type(a) is RS or type(b) is RS:
        if not (is_strval(a) and is_strval(b)):
            raise TypeError("'<' not supported")
        ca, cb = chars_of(a), chars_of(b)
        g = len(ca) < len(cb)
        for x, y in reversed(list(zip(ca, cb))):
            if type(x) is int and type(y) is int:
                lt = x < y
            else:
                lt = z3.ULT(_bv(x), _bv(y))
            g = g_or(lt, g_and(c_eq(x, y), g))
        return g
    return a < b


def _bv(x):
    return z3.BitVecVal(x, 8) if type(x) is int else x


def _at(v, i):
    if type(v) is RS:
        return rs((v.ch[i],))
    return v[i]


def _wrap_result(r):
    if isinstance(r, z3.BoolRef):
        return SxBool(r)
    return r


def _finish(results):
    """results: (guard, outcome). Handles raising outcomes, bool outcomes, container outcomes."""
    raising = [(g, r) for g, r in results if type(r) is _Raise]
    if raising:
        ok = [(g, r) for g, r in results if type(r) is not _Raise]
        groups = {}
        for g, r in raising:
            groups.setdefault(type(r.exc), [[], r.exc])[0].append(g)
        for gs, exc in groups.values():
            if CUR.branch(g_or(*gs)):
                raise exc
        if not ok:
            raise PathAbort()
        results = ok
    flat = []
    for g, r in results:
        if type(r) is Fork:
            for g2, r2 in r.alts:
                flat.append((g_and(g, g2), r2))
        else:
            flat.append((g, r))
    results = [(g, r) for g, r in flat if g is not False and CUR.quick(g) is not False]
    if not results:
        raise PathAbort()
    if all(isinstance(r, (bool, z3.BoolRef, SxBool)) for g, r in results):
        return mkbool(g_or(*[g_and(g, guard_of(r)) for g, r in results]))
    if any(isinstance(r, z3.BoolRef) for g, r in results):
        results = [(g, _wrap_result(r)) for g, r in results]
    if any(isinstance(r, (list, dict, set)) or (isinstance(r, tuple)) for g, r in results):
        return _merge_containers(results)
    return mk(results)


def _merge_containers(results):
    """Fork on the shape of list/tuple outcomes, then merge element-wise."""
    groups = {}
    for g, r in results:
        if isinstance(r, (list, tuple)):
            k = (type(r), len(r))
        else:
            k = ('id', id(r))
        groups.setdefault(k, []).append((g, r))
    gl = list(groups.values())
    if len(gl) > 1:
        i = CUR.multi([g_or(*[g for g, r in x]) for x in gl])
    else:
        i = 0
    grp = gl[i]
    r0 = grp[0][1]
    if not isinstance(r0, (list, tuple)):
        return r0
    elems = [mk([(g, r[j]) for g, r in grp]) for j in range(len(r0))]
    return type(r0)(elems) if type(r0) in (list, tuple) else elems


def lift(f, sv):
    res = []
    for g, v in sv.alts:
        if CUR.quick(g) is False:
            continue
        try:
            res.append((g, f(v)))
        except Exception as e:
            res.append((g, _Raise(e)))
    return _finish(res)


def lift2(f, a, b):
    if type(a) is not SxVal:
        return lift(lambda y: f(a, y), b)
    if type(b) is not SxVal:
        if type(b) is SxBool:
            b = bool(b)
        return lift(lambda x: f(x, b), a)
    if len(a.alts) * len(b.alts) > 3000:
        if len(a.alts) <= len(b.alts):
            return lift2(f, wrap(a.choose()), b)
        return lift2(f, a, wrap(b.choose()))
    res = []
    for ga, va in a.alts:
        for gb, vb in b.alts:
            g = g_and(ga, gb)
            if g is False or CUR.quick(g) is False:
                continue
            try:
                res.append((g, f(va, vb)))
            except Exception as e:
                res.append((g, _Raise(e)))
    return _finish(res)


def eq_guard(a, b):
    """Guard for a == b where at least one is an SxVal (strings, ints, enums...)."""
    if type(a) is not SxVal:
        a, b = b, a
    if type(b) is SxBool:
        b = bool(b)
    if type(b) is not SxVal:
        gs = []
        for g, v in a.alts:
            if type(v) is RS:
                if type(b) is RS or isinstance(b, str):
                    gs.append(g_and(g, s_eq(v, b)))
            elif type(b) is RS:
                if isinstance(v, str):
                    gs.append(g_and(g, s_eq(v, b)))
            else:
                r = (v == b)
                if r is True or r is NotImplemented and False:
                    gs.append(g)
                elif type(r) is SxBool:
                    gs.append(g_and(g, r.g))
                elif r is not False and r is not NotImplemented and r:
                    gs.append(g)
        return g_or(*gs)
    if a is b:
        return True
    idx = {}
    rsb = []
    for g, v in b.alts:
        if type(v) is RS:
            rsb.append((g, v))
        else:
            idx.setdefault(_vkey_eq(v), []).append((g, v))
    gs = []
    for ga, va in a.alts:
        if type(va) is RS:
            for gb, vb in b.alts:
                if is_strval(vb):
                    e = s_eq(va, vb)
                    if e is not False:
                        gs.append(g_and(ga, gb, e))
            continue
        for gb, vb in idx.get(_vkey_eq(va), ()):
            gs.append(g_and(ga, gb))
        if isinstance(va, str):
            for gb, vb in rsb:
                e = s_eq(va, vb)
                if e is not False:
                    gs.append(g_and(ga, gb, e))
    return g_or(*gs)


def _vkey_eq(v):
    try:
        hash(v)
        return v
    except TypeError:
        return ('id', id(v))


def sx_len(sv):
    return lift(len, sv)


def _find(h, n, start=0):
    """find for str/RS haystack and concrete/RS needle: Fork of positions."""
    ch, cn = chars_of(h), chars_of(n)
    alts = []
    none = True
    for i in range(start, len(ch) - len(cn) + 1):
        e = g_and(*[c_eq(ch[i + j], cn[j]) for j in range(len(cn))])
        if e is False:
            continue
        alts.append((g_and(none, e), i))
        none = g_and(none, g_not(e))
        if e is True:
            break
    alts.append((none, -1))
    return Fork([(g, v) for g, v in alts if g is not False])


def _contains(h, n):
    ch, cn = chars_of(h), chars_of(n)
    return g_or(*[g_and(*[c_eq(ch[i + j], cn[j]) for j in range(len(cn))])
                  for i in range(0, len(ch) - len(cn) + 1)])


def sx_contains(item, cont):
    """item in cont, cont a str-like SxVal or str."""
    def f(n, h):
        if not is_strval(n):
            raise TypeError("'in <string>' requires string as left operand")
        if type(n) is RS or type(h) is RS:
            return _contains(h, n)
        return n in h
    return lift2(f, item, cont)


def sx_index(sv, k):
    if type(k) is slice:
        parts = [p.concrete() if type(p) is SxVal else p for p in (k.start, k.stop, k.step)]
        k = slice(*parts)

        def f(v):
            if type(v) is RS:
                return rs(v.ch[k])
            return v[k]
        return lift(f, sv)

    def f2(v, i):
        if type(v) is RS:
            return rs((v.ch[i],))
        return v[i]
    return lift2(f2, sv, k)


# ---------------------------------------------------------------- string methods on unions
_CLASSES = {
    'isdigit': [(48, 57)], 'isdecimal': [(48, 57)], 'isnumeric': [(48, 57)],
    'isalpha': [(65, 90), (97, 122)], 'isalnum': [(48, 57), (65, 90), (97, 122)],
    'isspace': [(9, 13), (28, 32)], 'isascii': [(0, 127)],
}
_WS = [9, 10, 11, 12, 13, 28, 29, 30, 31, 32]


def _range(c, lo, hi):
    if type(c) is int:
        return lo <= c <= hi
    return g_and(z3.UGE(c, lo), z3.ULE(c, hi))


def _rs_method(v, name, args, kw):
    """A str method on an RS; may fork on characters relevant to the operation."""
    if name in _CLASSES and not args:
        return g_and(len(v) > 0, *[g_or(*[_range(c, lo, hi) for lo, hi in _CLASSES[name]]) for c in v.ch]) \
            if name != 'isascii' else g_and(*[_range(c, 0, 127) for c in v.ch])
    if name in ('startswith', 'endswith') and len(args) == 1:
        opts = args[0] if isinstance(args[0], tuple) else (args[0],)
        out = []
        for o in opts:
            co = chars_of(o)
            if len(co) > len(v):
                continue
            part = v.ch[:len(co)] if name == 'startswith' else v.ch[len(v) - len(co):]
            out.append(g_and(*[c_eq(x, y) for x, y in zip(part, co)]))
        return g_or(*out)
    if name == 'find' and len(args) in (1, 2):
        st = args[1] if len(args) == 2 else 0
        if st < 0:
            st = max(0, len(v) + st)
        return _find(v, args[0], st)
    if name == 'index' and len(args) in (1, 2):
        st = args[1] if len(args) == 2 else 0
        r = _find(v, args[0], max(0, len(v) + st) if st < 0 else st)
        miss = [g for g, p in r.alts if p == -1]
        if miss and CUR.branch(g_or(*miss)):
            raise ValueError('substring not found')
        return Fork([(g, p) for g, p in r.alts if p != -1])
    if (name == 'partition' and len(args) == 1 or name == 'split' and len(args) == 2 and args[1] == 1) and not kw \
            and isinstance(args[0], str) and args[0]:
        fnd = _find(v, args[0])
        alts = fnd.alts if type(fnd) is SxVal or type(fnd) is Fork else [(True, fnd)]
        n, out = len(args[0]), []
        for g, p in alts:
            if name == 'partition':
                r = (v, '', '') if p == -1 else (rs(v.ch[:p]), args[0], rs(v.ch[p + n:]))
            else:
                r = [v] if p == -1 else [rs(v.ch[:p]), rs(v.ch[p + n:])]
            out.append((g, type(r)(wrap(x) for x in r)))
        return Fork(out)
    if name in ('capitalize', 'casefold') and not args and not kw:
        up = _rs_method(rs(v.ch[:1]), 'upper', (), {}) if name == 'capitalize' and len(v.ch) else ''
        k = 1 if name == 'capitalize' else 0
        low = _rs_method(rs(v.ch[k:]), 'lower', (), {}) if len(v.ch) > k else ''
        return _add(up, low)
    if name in ('lower', 'upper') and not args:
        lo, hi, d = (65, 90, 32) if name == 'lower' else (97, 122, -32)
        out = []
        for c in v.ch:
            if type(c) is int:
                out.append(ord(getattr(chr(c), name)()))
            else:
                out.append(z3.simplify(z3.If(z3.And(z3.UGE(c, lo), z3.ULE(c, hi)), c + (d % 256), c)))
        return rs(out)
    if name in ('encode', '__str__') and name == '__str__':
        return v
    if name == 'join' and len(args) == 1:
        items = list(args[0])
        acc = ''
        for i, it in enumerate(items):
            acc = _add(acc, it) if i == 0 else _add(_add(acc, v), it)
        return acc
    # generic: decide the characters that occur in the (concrete) arguments, keep the rest as placeholders
    alphabet = None
    if all(isinstance(a, (str, int, type(None))) for a in args) and not kw:
        if name in ('split', 'rsplit', 'strip', 'lstrip', 'rstrip') and (not args or args[0] is None):
            alphabet = set(_WS)
        elif name in ('split', 'rsplit', 'strip', 'lstrip', 'rstrip', 'partition', 'rpartition', 'replace',
                      'removeprefix', 'removesuffix', 'count', 'rfind', 'rindex', 'find', 'startswith', 'endswith'):
            alphabet = set(ord(c) for a in args if isinstance(a, str) for c in a)
            if name == 'replace':
                alphabet = set(ord(c) for c in args[0])
        elif name == 'splitlines':
            alphabet = {10, 11, 12, 13, 28, 29, 30, 0x85}
        elif name in ('ljust', 'rjust', 'center', 'zfill'):
            alphabet = {43, 45} if name == 'zfill' else set()
    if alphabet is None:
        s = realise_rs(v)
        return getattr(s, name)(*args, **kw)
    chars = []
    back = {}
    for i, c in enumerate(v.ch):
        if type(c) is int:
            chars.append(chr(c))
            continue
        hit = None
        for a in sorted(alphabet):
            if a < 256 and CUR.branch(c_eq(c, a)):
                hit = a
                break
        if hit is not None:
            chars.append(chr(hit))
        else:
            p = chr(0xE000 + i)
            back[p] = c
            chars.append(p)
    r = getattr(''.join(chars), name)(*args)

    def conv(x):
        if isinstance(x, str):
            return rs([back.get(c, ord(c)) for c in x])
        if isinstance(x, (list, tuple)):
            return type(x)(wrap(conv(y)) for y in x)
        return x
    return conv(r)


def wrap(v):
    """RS -> SxVal so that user code can hold it."""
    return SxVal([(True, v)]) if type(v) is RS else v


def _str_method(v, name, args, kw):
    if type(v) is RS or any(type(a) is RS for a in args):
        if type(v) is not RS:
            v = RS(tuple(map(ord, v)))  # concrete receiver, symbolic argument
        return _rs_method(v, name, args, kw)
    return getattr(v, name)(*args, **kw)


class SxMethod:
    __slots__ = ('sv', 'name')

    def __init__(self, sv, name):
        self.sv, self.name = sv, name

    def __call__(self, *args, **kw):
        return call_method(self.sv, self.name, args, kw)


def call_method(recv, name, args, kw):
    """Method on an SxVal (or on a str with symbolic arguments), lifted over the alternatives."""
    if type(recv) is SxVal and not recv.is_str():
        vals = [(g, v) for g, v in recv.alts]
        if any(is_strval(v) for g, v in vals):
            v = recv.choose()
            return getattr(wrap(v), name)(*args, **kw)
        return lift(lambda v: getattr(v, name)(*args, **kw), recv)
    if name == 'format' and not isinstance(recv, SxVal):
        return _format(recv, args, kw)
    if name == 'join':
        items = list(args[0])
        acc = ''
        for i, it in enumerate(items):
            if not (isinstance(it, str) or (type(it) is SxVal and it.is_str())):
                raise TypeError('sequence item %d: expected str instance' % i)
            acc = it if i == 0 else acc + recv + it
        return acc
    if name == 'encode':
        return recv.concrete().encode(*args, **kw)
    args = list(args)
    kw = {k: (x.concrete() if type(x) is SxVal else x) for k, x in kw.items()}
    # tuple arguments (startswith) with symbolic members: fork
    for i, a in enumerate(args):
        if type(a) is tuple and any(type(x) is SxVal for x in a):
            args[i] = tuple(x.choose() if type(x) is SxVal else x for x in a)
        if type(a) is SxBool:
            args[i] = bool(a)
    sym = [i for i, a in enumerate(args) if type(a) is SxVal]
    while len(sym) > 1:
        i = sym.pop()
        args[i] = args[i].choose()
    if not sym:
        if type(recv) is not SxVal:
            return _finish([(True, _str_method(recv, name, args, kw))])
        return lift(lambda v: _str_method(v, name, args, kw), recv)
    i = sym[0]

    def f(v, a):
        aa = list(args)
        aa[i] = a
        return _str_method(v, name, aa, kw)
    return lift2(f, recv, args[i])


def _format(fmt, args, kw):
    import string
    acc = ''
    auto = 0
    for lit, field, spec, conv in string.Formatter().parse(fmt):
        acc = acc + lit
        if field is None:
            continue
        if field == '':
            v = args[auto]
            auto += 1
        elif field.isdigit():
            v = args[int(field)]
        else:
            v = kw[field]
        if spec:
            v = format(v.concrete() if type(v) is SxVal else v, spec)
        acc = acc + sx_str(v)
    return acc


def sx_str(x):
    t = type(x)
    if t is str:
        return x
    if t is SxVal:
        if x.is_str():
            return x
        return lift(lambda v: v if is_strval(v) else str(v), x)
    if t is SxBool:
        return mk([(x.g, 'True'), (g_not(x.g), 'False')])
    if t in (list, tuple, dict) or t.__module__ == 'symx.shims':
        return sx_repr(x)
    c = t.__str__
    if c is object.__str__:
        return sx_repr(x)
    if hasattr(c, '__code__'):
        return c(x)
    return str(x)


def sx_repr(x):
    t = type(x)
    if t is SxVal:
        return lift(lambda v: _repr_val(v), x)
    if t is SxBool:
        return sx_str(x)
    if isinstance(x, (list, tuple)) and t in (list, tuple):
        acc = '[' if t is list else '('
        for i, e in enumerate(x):
            acc = acc + (', ' if i else '') + sx_repr(e)
        if t is tuple and len(x) == 1:
            acc = acc + ','
        return acc + (']' if t is list else ')')
    if isinstance(x, dict):
        acc = '{'
        for i, (k, v) in enumerate(x.items()):
            acc = acc + (', ' if i else '') + sx_repr(k) + ': ' + sx_repr(v)
        return acc + '}'
    c = t.__repr__
    if hasattr(c, '__code__'):
        return c(x)
    return repr(x)


def _repr_val(v):
    if type(v) is RS:
        # quotes/backslashes/control characters would change the form: decide them
        special = [39, 92] + list(range(0, 32)) + [127]
        need = CUR.branch(g_or(*[c_in(c, special) for c in v.ch]))
        if need:
            return repr(realise_rs(v))
        return rs((39,) + tuple(v.ch) + (39,))
    return repr(v)


# ---------------------------------------------------------------- realisation
REALISE_CAP = 6


def realise_rs(v):
    """Split on concrete values of a symbolic string: exact when the characters are already determined, otherwise
    up to REALISE_CAP values are explored and the rest is reported as not decided."""
    s = CUR
    for _ in range(REALISE_CAP):
        if s.pos < len(s.prefix):
            d = s.prefix[s.pos]
            if len(d.exprs) == 2 and getattr(d, 'site', None) is not None:
                cand = d.site
            else:
                raise Limit('nondeterministic re-execution')
        else:
            if s._check() != z3.sat:
                raise PathAbort()
            m = s.s.model()
            cand = ''.join(chr(c if type(c) is int else m.eval(c, model_completion=True).as_long()) for c in v.ch)
        e = s_eq(v, cand)
        before = s.pos
        if e is True:
            return cand
        r = s.branch(e)
        if s.pos > before and s.pos <= len(s.prefix):
            s.prefix[before].site = cand
        if r:
            return cand
    raise Limit('string realised more than %d times' % REALISE_CAP)
