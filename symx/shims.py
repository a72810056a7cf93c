"""Run-time support called by the instrumented code of the package under test."""
import builtins
import collections
import copy
import functools
import io
import itertools
import pkgutil
import re
import shlex as _real_shlex
import sys
import types

from . import core, sxre
from .core import (SxBool, SxVal, SxMethod, RS, Limit, Signal, PathAbort, g_and, g_or, g_not, mk, mkbool, wrap,
                   eq_guard, lift, lift2, guard_of, sx_str, sx_repr)

SXT = (SxBool, SxVal)
HOOKS = {}      # environment hooks set by the harness environment


def is_sx(x):
    return type(x) is SxVal or type(x) is SxBool


def is_key(x):
    """A dictionary key or set member that cannot be hashed without deciding a symbolic value."""
    t = type(x)
    if t is SxVal or t is SxBool or t is SymCommand:
        return True
    if t is str or t is int or t is bool or x is None:
        return False
    if isinstance(x, tuple):
        return any(is_key(y) for y in x)
    if isinstance(x, type) or hasattr(t, '__members__') or t.__hash__ in (object.__hash__, None):
        return False
    return hasattr(sys.modules.get(t.__module__), '__sx_call__') and _has_sx(x)


def key_eq(a, b):
    """Guard: a and b are the same key."""
    if a is b:
        return True
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and g_and(*[key_eq(x, y) for x, y in zip(a, b)])
    if isinstance(a, tuple) or isinstance(b, tuple):
        return False
    r = a == b
    return False if r is NotImplemented else guard_of(r)


# ----------------------------------------------------------------------------- containers
class SymDict(dict):
    """dict accepting symbolic keys. Concrete keys live in the native storage until a symbolic key is inserted."""

    def __init__(self, *a, **k):
        self._e = None
        if a and isinstance(a[0], SymDict) and a[0]._e is not None:
            dict.__init__(self)
            self._e = [list(x) for x in a[0]._e]
            for kk, v in k.items():
                self[kk] = v
        elif a:
            dict.__init__(self)
            src = a[0]
            if hasattr(src, 'keys'):
                for kk in src.keys():
                    self[kk] = src[kk]
            else:
                for kk, v in src:
                    self[kk] = v
            for kk, v in k.items():
                self[kk] = v
        else:
            dict.__init__(self, **k)

    def _to_entries(self):
        if self._e is None:
            self._e = [[k, v] for k, v in dict.items(self)]
            dict.clear(self)

    def _slot(self, key):
        """Index of the entry for key (forks), or None; entries mode only."""
        for i, (k, v) in enumerate(self._e):
            r = key_eq(k, key)
            if r is True or r is not False and core.CUR.branch(r):
                return i
        return None

    def _native_union(self, key):
        """(present guard, [(guard, value)]) for a symbolic key over native concrete keys."""
        return native_lookup(self, key)

    def __setitem__(self, k, v):
        if self._e is None:
            if not is_key(k):
                dict.__setitem__(self, k, v)
                return
            self._to_entries()
        i = self._slot(k)
        if i is None:
            self._e.append([k, v])
        else:
            self._e[i][1] = v

    def __getitem__(self, k):
        if self._e is None:
            if not is_key(k):
                return dict.__getitem__(self, k)
            return native_getitem(self, k)
        i = self._slot(k)
        if i is None:
            raise KeyError(k)
        return self._e[i][1]

    def get(self, k, default=None):
        if self._e is None:
            if not is_key(k):
                return dict.get(self, k, default)
            return native_get(self, k, default)
        i = self._slot(k)
        return default if i is None else self._e[i][1]

    def has(self, k):
        if self._e is None:
            if not is_key(k):
                return dict.__contains__(self, k)
            return mkbool(native_present(dict.keys(self), k))
        return mkbool(g_or(*[key_eq(kk, k) for kk, v in self._e]))

    def __contains__(self, k):
        return bool(self.has(k))

    def __delitem__(self, k):
        if self._e is None and not is_key(k):
            return dict.__delitem__(self, k)
        self._to_entries()
        i = self._slot(k)
        if i is None:
            raise KeyError(k)
        del self._e[i]

    _NO = object()

    def pop(self, k, default=_NO):
        if self._e is None and not is_key(k):
            if default is SymDict._NO:
                return dict.pop(self, k)
            return dict.pop(self, k, default)
        self._to_entries()
        i = self._slot(k)
        if i is None:
            if default is SymDict._NO:
                raise KeyError(k)
            return default
        v = self._e[i][1]
        del self._e[i]
        return v

    def setdefault(self, k, default=None):
        if bool(self.has(k)):
            return self[k]
        self[k] = default
        return default

    def update(self, *a, **k):
        for src in a:
            if hasattr(src, 'keys'):
                for kk in src.keys():
                    self[kk] = src[kk]
            else:
                for kk, v in src:
                    self[kk] = v
        for kk, v in k.items():
            self[kk] = v

    def __len__(self):
        return dict.__len__(self) if self._e is None else len(self._e)

    def __bool__(self):
        return len(self) > 0

    def __iter__(self):
        return iter(self.keys())

    def keys(self):
        return dict.keys(self) if self._e is None else [k for k, v in self._e]

    def values(self):
        return dict.values(self) if self._e is None else [v for k, v in self._e]

    def items(self):
        return dict.items(self) if self._e is None else [(k, v) for k, v in self._e]

    def copy(self):
        return SymDict(self)

    def clear(self):
        dict.clear(self)
        self._e = None

    def popitem(self):
        if self._e is None:
            return dict.popitem(self)
        return tuple(self._e.pop())

    def __eq__(self, o):
        if not isinstance(o, dict):
            return NotImplemented
        if len(self) != len(o):
            return False
        if self._e is None and not (isinstance(o, SymDict) and o._e is not None):
            for k, v in dict.items(self):
                if not dict.__contains__(o, k):
                    return False
                if not (v == dict.__getitem__(o, k)):
                    return False
            return True
        oo = o if isinstance(o, SymDict) else SymDict(o)
        for k, v in self.items():
            if not oo.has(k):
                return False
            if not (v == oo[k]):
                return False
        return True

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not r

    __hash__ = None

    def __or__(self, o):
        r = SymDict(self)
        r.update(o)
        return r

    def __ior__(self, o):
        self.update(o)
        return self

    def __deepcopy__(self, memo):
        r = SymDict()
        memo[id(self)] = r
        if self._e is None:
            for k, v in dict.items(self):
                dict.__setitem__(r, copy.deepcopy(k, memo), copy.deepcopy(v, memo))
        else:
            r._e = [[copy.deepcopy(k, memo), copy.deepcopy(v, memo)] for k, v in self._e]
        return r

    def __copy__(self):
        return SymDict(self)

    def __repr__(self):
        return '<SymDict %r>' % (list(self.items()),)


class SymOrdered(SymDict):
    """collections.OrderedDict"""

    def move_to_end(self, k, last=True):
        v = self.pop(k)
        items = list(self.items())
        self.clear()
        for kk, vv in items + [(k, v)] if last else [(k, v)] + items:
            self[kk] = vv

    def copy(self):
        return SymOrdered(self)


class SymDefault(SymDict):
    """collections.defaultdict"""

    def __init__(self, factory=None, *a, **k):
        self.default_factory = factory
        SymDict.__init__(self, *a, **k)

    def __getitem__(self, k):
        if not bool(self.has(k)):
            if self.default_factory is None:
                raise KeyError(k)
            self[k] = self.default_factory()
        return SymDict.__getitem__(self, k)

    def copy(self):
        return SymDefault(self.default_factory, self)

    def __deepcopy__(self, memo):
        return SymDefault(self.default_factory, SymDict.__deepcopy__(self, memo))

    __copy__ = copy


class SymCounter(SymDict):
    """collections.Counter"""

    def __init__(self, it=None, **k):
        SymDict.__init__(self)
        self.update(it, **k)

    def __getitem__(self, k):
        return SymDict.__getitem__(self, k) if bool(self.has(k)) else 0

    def update(self, it=None, **k):
        if isinstance(it, dict):
            for x, n in it.items():
                self[x] = self[x] + n
        elif it is not None:
            for x in it:
                self[x] = self[x] + 1
        for x, n in k.items():
            self[x] = self[x] + n

    def elements(self):
        return [x for x, n in self.items() for _ in range(n)]

    def total(self):
        return sum(self.values())

    def most_common(self, n=None):
        return sorted(self.items(), key=lambda e: -e[1])[:n]

    def copy(self):
        return SymCounter(self)

    def __deepcopy__(self, memo):
        return SymCounter(SymDict.__deepcopy__(self, memo))

    __copy__ = copy


SYM_DICTS = {SymDict: dict, SymOrdered: collections.OrderedDict, SymDefault: collections.defaultdict, SymCounter: collections.Counter}


class SymSet(set):
    """set accepting symbolic members (kept in a list beside the native storage)."""

    def __init__(self, it=()):
        set.__init__(self)
        self._s = []
        for x in it:
            self.add(x)

    def add(self, x):
        if is_key(x):
            if not bool(self.has(x)):
                self._s.append(x)
        elif self._s:
            if not bool(self.has(x)):
                set.add(self, x)
        else:
            set.add(self, x)

    def has(self, x):
        if not is_key(x) and not self._s:
            return set.__contains__(self, x)
        return mkbool(g_or(native_present(set.__iter__(self), x) if is_key(x) else set.__contains__(self, x),
                           *[key_eq(s, x) for s in self._s]))

    def __contains__(self, x):
        return bool(self.has(x))

    def __len__(self):
        return set.__len__(self) + len(self._s)

    def __bool__(self):
        return len(self) > 0

    def __iter__(self):
        # insertion order is not modelled; concrete members are visited in sorted order for determinism
        try:
            items = sorted(set.__iter__(self))
        except TypeError:
            items = list(set.__iter__(self))
        return iter(items + self._s)

    def update(self, *its):
        for it in its:
            for x in it:
                self.add(x)

    def discard(self, x):
        if not is_key(x) and not self._s:
            return set.discard(self, x)
        for y in list(self):
            if bool(mkbool(key_eq(y, x))):
                if is_key(y):
                    self._s = [z for z in self._s if z is not y]
                else:
                    set.discard(self, y)
                return

    def remove(self, x):
        if not bool(self.has(x)):
            raise KeyError(x)
        self.discard(x)

    def union(self, *o):
        r = SymSet(self)
        r.update(*o)
        return r

    def __or__(self, o):
        return self.union(o)

    def __ror__(self, o):
        return SymSet(o).union(self)

    def __ior__(self, o):
        self.update(o)
        return self

    def intersection(self, *os):
        r = list(self)
        for o in os:
            o = o if isinstance(o, (set, frozenset)) else SymSet(o)
            r = [x for x in r if sx_in(x, o)]
        return SymSet(r)

    def __and__(self, o):
        return self.intersection(o)

    def __rand__(self, o):
        return self.intersection(o)

    def difference(self, *os):
        r = list(self)
        for o in os:
            o = o if isinstance(o, (set, frozenset)) else SymSet(o)
            r = [x for x in r if not sx_in(x, o)]
        return SymSet(r)

    def __sub__(self, o):
        return self.difference(o)

    def __rsub__(self, o):
        return SymSet(o).difference(self)

    def symmetric_difference(self, o):
        o = o if isinstance(o, SymSet) else SymSet(o)
        return self.difference(o).union(o.difference(self))

    __xor__ = symmetric_difference
    __rxor__ = symmetric_difference

    def issubset(self, o):
        o = o if isinstance(o, (set, frozenset)) else SymSet(o)
        return all(bool(sx_in(x, o)) for x in self)

    def __le__(self, o):
        return self.issubset(o)

    def issuperset(self, o):
        return all(bool(sx_in(x, self)) for x in o)

    def __ge__(self, o):
        return self.issuperset(o)

    def isdisjoint(self, o):
        return not any(bool(sx_in(x, self)) for x in o)

    def __eq__(self, o):
        if not isinstance(o, (set, frozenset)):
            return NotImplemented
        return len(self) == len(o) and self.issubset(o)

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not r

    __hash__ = None

    def copy(self):
        return SymSet(self)

    def __deepcopy__(self, memo):
        r = SymSet()
        for x in set.__iter__(self):
            set.add(r, copy.deepcopy(x, memo))
        r._s = list(self._s)
        return r


def native_present(keys, x):
    """Guard: symbolic x equals one of the concrete keys."""
    keys = keys if isinstance(keys, (dict, set, frozenset, type({}.keys()))) else set(keys)
    if type(x) is SxBool:
        x = bool(x)
        return x in keys
    if type(x) is not SxVal:
        return g_or(*[key_eq(k, x) for k in keys])
    gs = []
    strs = None
    for g, v in x.alts:
        if type(v) is RS:
            if strs is None:
                strs = [k for k in keys if isinstance(k, str)]
            n = len(v)
            gs.append(g_and(g, g_or(*[core.s_eq(v, k) for k in strs if len(k) == n])))
        else:
            try:
                if v in keys:
                    gs.append(g)
            except TypeError:
                raise
    return g_or(*gs)


def native_pairs(d, x):
    """[(guard, value)] for symbolic key x over the concrete-keyed dict d (present keys only)."""
    out = []
    strs = None
    if type(x) is not SxVal:
        return [(g, v) for g, v in ((key_eq(k, x), v) for k, v in dict.items(d)) if g is not False]
    for g, v in x.alts:
        if type(v) is RS:
            if strs is None:
                strs = [k for k in dict.keys(d) if isinstance(k, str)]
            for k in strs:
                if len(k) == len(v):
                    e = core.s_eq(v, k)
                    if e is not False:
                        out.append((g_and(g, e), dict.__getitem__(d, k)))
        elif dict.__contains__(d, v):
            out.append((g, dict.__getitem__(d, v)))
    return out


_SCALAR = (str, int, bool, float, type(None))


def _scalar(v):
    return isinstance(v, _SCALAR) or type(v) is SxVal or isinstance(v, core.z3.BoolRef) or hasattr(type(v), '__members__')


def merge_values(pairs):
    """A single value out of guarded ones: scalars merge into a union, other objects are grouped by equality and forked."""
    pairs = [(g, v) for g, v in pairs if g is not False and core.CUR.quick(g) is not False]
    if not pairs:
        raise PathAbort()
    if all(_scalar(v) for g, v in pairs):
        return mk(pairs)
    groups = []
    for g, v in pairs:
        for grp in groups:
            if grp[1] is v or (type(grp[1]) is type(v) and not _has_sx(v) and not _has_sx(grp[1]) and _safe_eq(grp[1], v)):
                grp[0].append(g)
                break
        else:
            groups.append(([g], v))
    if len(groups) == 1:
        return groups[0][1]
    i = core.CUR.multi([g_or(*gs) for gs, v in groups])
    return groups[i][1]


def _safe_eq(a, b):
    try:
        return (a == b) is True
    except Exception:
        return False


def _has_sx(v, depth=0):
    if is_sx(v):
        return True
    if depth > 4:
        return True
    if isinstance(v, (list, tuple)):
        return any(_has_sx(x, depth + 1) for x in v)
    if isinstance(v, dict):
        return any(_has_sx(x, depth + 1) for x in v.values())
    if hasattr(v, '__dict__') and not isinstance(v, type) and not hasattr(type(v), '__members__'):
        return any(_has_sx(x, depth + 1) for x in vars(v).values())
    return False


def native_get(d, x, default=None):
    if type(x) is SxBool:
        return dict.get(d, bool(x), default)
    pres = native_present(dict.keys(d), x)
    pairs = native_pairs(d, x)
    if pres is True:
        return merge_values(pairs)
    if pres is False:
        return default
    if _scalar(default) and default is not None and all(_scalar(v) for g, v in pairs):
        return mk(pairs + [(g_not(pres), default)])
    if core.CUR.branch(pres):
        return merge_values(pairs)
    return default


def native_getitem(d, x):
    if type(x) is SxBool:
        return d[bool(x)]
    if type(d) is collections.defaultdict:
        return d[x.concrete()]
    pres = native_present(dict.keys(d), x)
    if not core.CUR.branch(pres):
        if hasattr(type(d), '__missing__'):
            return d.__missing__(x)
        raise KeyError('symbolic key')
    return merge_values(native_pairs(d, x))


# ----------------------------------------------------------------------------- operators
def sx_in(x, c):
    t = type(c)
    if t in SYM_DICTS or t is SymSet:
        return c.has(x)
    if t is SxVal:
        if c.is_str():
            return core.sx_contains(x, c)
        return sx_in(x, c.choose())
    if is_sx(x):
        if t is str:
            return core.sx_contains(x, c)
        if isinstance(c, (dict, set, frozenset)) or t in (type({}.keys()),):
            return mkbool(native_present(c, x))
        if t in (list, tuple):
            gs = []
            for e in c:
                if e is x:
                    return True
                gs.append(guard_of(e == x) if not isinstance(e == x, bool) else (e == x))
            return mkbool(g_or(*gs))
        return x in c
    if isinstance(c, (dict, set, frozenset)) and is_key(x):
        return mkbool(native_present(c, x))
    if t in (list, tuple) and any(type(e) is SxVal for e in c):
        gs = []
        for e in c:
            if e is x:
                return True
            r = (e == x)
            gs.append(r if isinstance(r, bool) else guard_of(r))
        return mkbool(g_or(*gs))
    return x in c


def sx_notin(x, c):
    r = sx_in(x, c)
    return ~r if type(r) is SxBool else (not r)


def sx_is(a, b):
    if type(a) is SxVal or type(b) is SxVal:
        if a is b:
            return True
        return mkbool(eq_guard(a, b))
    if type(a) is SxBool or type(b) is SxBool:
        if a is None or b is None:
            return False
        if isinstance(a, (bool, SxBool)) and isinstance(b, (bool, SxBool)):
            return a == b if type(a) is SxBool else b == a
        return False
    return a is b


def sx_isnot(a, b):
    r = sx_is(a, b)
    return ~r if type(r) is SxBool else (not r)


def sx_getitem(o, k):
    if is_sx(k):
        t = type(o)
        if t in SYM_DICTS:
            return o[k]
        if isinstance(o, dict):
            return native_getitem(o, k)
        if t is SxVal:
            return core.sx_index(o, k)
        if t is str:
            return lift(lambda i: o[i], k)
        if isinstance(o, (list, tuple)):
            v = k.concrete() if type(k) is SxVal else int(bool(k))
            return o[v]
        return o[k]
    if type(o) is dict and is_key(k):
        return native_getitem(o, k)
    if type(k) is slice and any(is_sx(p) for p in (k.start, k.stop, k.step)):
        k = slice(*[p.concrete() if type(p) is SxVal else p for p in (k.start, k.stop, k.step)])
    return o[k]


def sx_mkset(it):
    return SymSet(it)


def sx_mkdict(it):
    d = SymDict()
    for k, v in it:
        d[k] = v
    return d


def sx_mkdict2(parts):
    d = SymDict()
    for p in parts:
        if len(p) == 1:
            for k in p[0].keys():
                d[k] = p[0][k]
        else:
            d[p[0]] = p[1]
    return d


def sx_subject(x):
    """The subject of a match statement: patterns compare strings with ==, for other values one alternative is taken."""
    if type(x) is SxBool:
        return bool(x)
    if type(x) is SxVal and not x.is_str():
        return wrap(x.choose())
    return x


def sx_fmt(parts):
    acc = ''
    for p in parts:
        if type(p) is str:
            acc = acc + p
        else:
            v, conv, spec = p
            if conv == 'r':
                v = sx_repr(v)
            elif conv == 'a':
                v = ascii(v)
            elif conv == 's':
                v = sx_str(v)
            if spec is not None:
                if type(spec) is SxVal:
                    spec = spec.concrete()
                if spec == '':
                    v = sx_str(v)
                else:
                    v = format(v, spec)
            elif is_sx(v) or hasattr(type(v).__str__, '__code__') or hasattr(type(v).__repr__, '__code__') \
                    or isinstance(v, (list, tuple, dict)):
                if type(v).__format__ is object.__format__ or is_sx(v) or isinstance(v, (list, tuple, dict)):
                    v = sx_str(v)
                else:
                    v = format(v)
            else:
                v = format(v)
            acc = acc + v
    return acc


def proxyish(e):
    return isinstance(e, (TypeError, AttributeError, NotImplementedError)) and \
        any(n in str(e) for n in ('SxVal', 'SxBool', 'SxMethod', 'SymDict', 'SymOrdered', 'SymDefault', 'SymCounter', 'SymSet', 'SymCommand'))


def sx_exc():
    """First statement of every except handler in instrumented code."""
    e = sys.exception()
    if e is not None and proxyish(e):
        raise Limit('proxy reached unsupported operation: %s' % e)


# ----------------------------------------------------------------------------- calls
class SymCommand:
    """A command line given by its words; shlex.split of it (POSIX mode) yields the words. Contract of the stub:
    shlex.split(shlex.join(words)) == words, documented by the standard library (and checked separately, C05)."""

    def __init__(self, words):
        self.words = words

    def text(self):
        """The quoted text, as a symbolic string (used if the code does not call shlex.split)."""
        acc = ''
        for i, w in enumerate(self.words):
            q = quote(w)
            acc = q if i == 0 else acc + ' ' + q
        return acc

    def __deepcopy__(self, memo):
        return self

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError("SymCommand " + name)
        return getattr(wrap_text(self.text()), name)

    def __add__(self, o):
        return self.text() + o

    def __radd__(self, o):
        return o + self.text()

    def __eq__(self, o):
        if isinstance(o, SymCommand):       # quoting and joining lose nothing
            if self.words is o.words:
                return True
            if len(self.words) != len(o.words):
                return False
            return mkbool(g_and(*[guard_of(a == b) for a, b in zip(self.words, o.words)]))
        return self.text() == o

    def __hash__(self):
        raise Limit('hash of a symbolic command')


def wrap_text(t):
    return t


def quote(w):
    """shlex.quote, lifted."""
    if type(w) is str:
        return _real_shlex.quote(w)
    safe = [(37, 37), (43, 43), (44, 47), (45, 45), (46, 46), (47, 57), (58, 58), (61, 61), (64, 90), (95, 95), (97, 122)]

    def f(v):
        if type(v) is not RS:
            return _real_shlex.quote(v)
        if len(v) == 0:
            return "''"
        ok = g_and(*[g_or(*[core._range(c, a, b) for a, b in safe]) for c in v.ch])
        if core.CUR.branch(ok):
            return v
        out = [39]
        for c in v.ch:
            if core.CUR.branch(core.c_eq(c, 39)):
                out += [39, 34, 39, 34, 39]
            else:
                out.append(c)
        return core.rs(out + [39])
    return lift(f, w)


def _isinstance(x, T):
    if type(x) is SxVal:
        if type(T) is tuple:
            r = False
            for t in T:
                r2 = _isinstance(x, t)
                if r2 is True:
                    return True
                r = r2 if r is False else (r if r2 is False else (r | r2))
            return r
        gs = []
        for g, v in x.alts:
            if type(v) is RS:
                if T is str or T is object:
                    gs.append(g)
            elif isinstance(v, T):
                gs.append(g)
        return mkbool(g_or(*gs)) if len(gs) != len(x.alts) else True
    if type(x) is SxBool:
        if type(T) is tuple:
            return any(_isinstance(x, t) for t in T)
        return T in (bool, int, object) or (not isinstance(T, type) and isinstance(True, T))
    if type(x) is SymCommand:
        if type(T) is tuple:
            return any(_isinstance(x, t) for t in T)
        return T is str or T is object
    if type(x) in SYM_DICTS and T in (collections.defaultdict, collections.Counter, collections.OrderedDict):
        return issubclass(SYM_DICTS[type(x)], T)
    return isinstance(x, T)


def _type(x):
    if type(x) is SxVal:
        ts = [(g, str if type(v) is RS else type(v)) for g, v in x.alts]
        return merge_values([(g, t) for g, t in ts])
    if type(x) is SxBool:
        return bool
    if type(x) is SymCommand:
        return str
    if type(x) in SYM_DICTS:
        return SYM_DICTS[type(x)]
    if type(x) is SymSet:
        return set
    return type(x)


def _len(x):
    if type(x) is SxVal:
        return core.sx_len(x)
    if type(x) is SymCommand:
        return _len(x.text())
    return len(x)


def _get_data(pkg, res):
    if type(res) is SxVal:
        # stub: the data files present in the package decide, however a path to them is written; any other name is absent
        import os
        base = os.path.dirname(sys.modules[pkg].__file__)
        d = os.path.join(base, 'command_flag_option_info/data')
        up = bool(sx_in('/', res[len('command_flag_option_info/data/'):]))
        for fn in sorted(os.listdir(d)):
            for way in (('', './', '/', './/', '././', '../data/') if up else ('',)):
                if bool(res == 'command_flag_option_info/data/' + way + fn):
                    return pkgutil.get_data(pkg, 'command_flag_option_info/data/' + way + fn)
            if up and bool(res[:30 + len(fn) + 1] == 'command_flag_option_info/data/' + fn + '/'):
                raise NotADirectoryError('symbolic resource')
        raise FileNotFoundError('symbolic resource')
    return pkgutil.get_data(pkg, res)


def _shlex_split(orig):
    def f(s, *a, **k):
        if type(s) is SymCommand:
            comments = a[0] if a else k.get('comments', False)
            posix = a[1] if len(a) > 1 else k.get('posix', True)
            if posix and (not comments):
                return list(s.words)
            return HOOKS['shlex'].split(s.text(), *a, **k)
        if type(s) is SxVal:
            return HOOKS['shlex'].split(s, *a, **k)
        return orig(s, *a, **k)
    return f


def _print(*args, **kw):
    h = HOOKS.get('print')
    if h is not None:
        return h(*args, **kw)
    return print(*[sx_str(a) if is_sx(a) else a for a in args], **kw)


def _open(*a, **k):
    h = HOOKS.get('open')
    return h(*a, **k) if h is not None else open(*a, **k)


class SymFile:
    """A real file opened for writing whose symbolic text is kept here as well."""

    def __init__(self, f, path, texts, keep):
        self._f, self._p, self._t = f, path, texts
        if not keep:
            texts[path] = ''

    def write(self, s):
        self._t[self._p] = self._t.get(self._p, '') + s
        return 0

    def writelines(self, ss):
        for s in ss:
            self.write(s)

    def close(self):
        self._f.close()

    def flush(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self._f.close()


def _hash(x):
    return hash(x)


def _sum(it, start=0):
    acc = start
    for x in it:
        acc = acc + x
    return acc


def _id(x):
    return id(x)


def sx_repr_ascii(v):
    r = sx_repr(v)
    f = lambda t: t.encode('ascii', 'backslashreplace').decode('ascii') if type(t) is str else t    # symbolic characters are ASCII
    return f(r) if type(r) is str else lift(f, r) if hasattr(r, 'alts') else r


SPECIAL = {
    isinstance: _isinstance, type: _type, len: _len, str: lambda *a, **k: sx_str(*a) if len(a) == 1 and not k else str(*a, **k),
    repr: sx_repr, ascii: sx_repr_ascii, set: lambda *a: SymSet(*a), frozenset: lambda *a: _frozen(*a), dict: lambda *a, **k: SymDict(*a, **k),
    print: _print, sum: _sum, open: _open,
    collections.defaultdict: lambda *a, **k: SymDefault(*a, **k), collections.Counter: lambda *a, **k: SymCounter(*a, **k),
    collections.OrderedDict: lambda *a, **k: SymOrdered(*a, **k),
    pkgutil.get_data: _get_data, _real_shlex.split: _shlex_split(_real_shlex.split),
    _real_shlex.quote: quote,
    _real_shlex.join: lambda ws: _join(ws),
}


def _join(ws):
    acc = ''
    for i, w in enumerate(ws):
        acc = quote(w) if i == 0 else acc + ' ' + quote(w)
    return acc


def _frozen(*a):
    items = list(a[0]) if a else []
    if any(is_sx(x) for x in items):
        return SymSet(items)
    return frozenset(items)


LIFTABLE = {int, ord, chr, abs, float, bool, hex, oct, bin, round, str.upper, str.lower, str.strip}


def _int_of_digits(v, base):
    """int() of a short symbolic string of digits: one alternative per value."""
    free = [c for c in v.ch if type(c) is not int]
    if type(base) is not int or not 2 <= base <= 10 or base ** len(free) > 600:
        return None
    codes = [48 + d for d in range(base)]
    if any(type(c) is int and c not in codes for c in v.ch):
        return None
    if not core.CUR.branch(core.g_and(*[core.g_or(*[core.c_eq(c, d) for d in codes]) for c in free])):
        return None
    alts = [(True, 0)]
    for c in v.ch:
        if type(c) is int:
            alts = [(g, n * base + c - 48) for g, n in alts]
        else:
            alts = [(core.g_and(g, core.c_eq(c, d)), n * base + d - 48) for g, n in alts for d in codes]
    return core.Fork(alts)


def _lift_builtin(f, a):
    args = list(a)
    sym = [i for i, x in enumerate(args) if type(x) is SxVal]
    for i in sym[1:]:
        args[i] = wrap(args[i].choose())
    i = sym[0]

    def g(v):
        if type(v) is RS:
            if f is int and i == 0:
                r = _int_of_digits(v, args[1] if len(args) > 1 else 10)
                if r is not None:
                    return r
            if f is ord and len(v) == 1:
                return core.Fork([(core.c_eq(v.ch[0], d), d) for d in range(256)])
            elif f is bool:
                return len(v) > 0
            else:
                v = core.realise_rs(v)
        aa = list(args)
        aa[i] = v
        return f(*aa)
    return lift(g, args[i])


def deep_concretise(x):
    if type(x) is SxVal:
        return x.concrete()
    if type(x) is SxBool:
        return bool(x)
    if type(x) is SymCommand:
        t = x.text()
        return t.concrete() if type(t) is SxVal else t
    if type(x) in (list, tuple):
        return type(x)(deep_concretise(y) for y in x)
    return x


def _pattern(pat, name, a, k):
    a = [x.text() if type(x) is SymCommand else x for x in a]
    r = sxre.call(pat, name, a, k)
    if r is NotImplemented:
        return getattr(pat, name)(*[deep_concretise(x) for x in a], **{n: deep_concretise(x) for n, x in k.items()})
    return r


def _fn(f):
    """A function handed to native code that calls it."""
    if f is None or isinstance(f, types.FunctionType) or _instrumented(f):
        return f
    return functools.partial(sx_call, f)


def _with_key(f):
    def g(*a, **k):
        if k.get('key') is not None:
            k = dict(k, key=_fn(k['key']))
        return f(*a, **k)
    return g


for _n in (sorted, min, max):
    SPECIAL[_n] = _with_key(_n)
SPECIAL[map] = lambda f, *its: map(_fn(f), *its)
SPECIAL[filter] = lambda f, it: filter(_fn(f), it)
SPECIAL[functools.reduce] = lambda f, *a: functools.reduce(_fn(f), *a)
SPECIAL[functools.partial] = lambda f, *a, **k: functools.partial(sx_call, f, *a, **k) if not isinstance(f, (types.FunctionType, type)) else functools.partial(f, *a, **k)
for _n in (itertools.takewhile, itertools.dropwhile, itertools.starmap, itertools.filterfalse):
    SPECIAL[_n] = (lambda n: lambda f, *its: n(_fn(f), *its))(_n)


def _re_function(name, f):
    pos = 2 if name in ('sub', 'subn') else 1

    def g(pattern, *a, **k):
        if not any(is_sx(x) or type(x) is SymCommand for x in a) and not any(is_sx(x) for x in k.values()) and not is_sx(pattern):
            return f(pattern, *a, **k)
        if is_sx(pattern):
            pattern = pattern.concrete()
        flags = k.pop('flags', 0)
        if name not in ('sub', 'subn', 'split') and len(a) > pos:
            flags = a[pos]
            a = a[:pos]
        return sx_call(getattr(re.compile(pattern, flags), name), *a, **k)
    return g


for _n in ('match', 'fullmatch', 'search', 'findall', 'finditer', 'split', 'sub', 'subn'):
    SPECIAL[getattr(re, _n)] = _re_function(_n, getattr(re, _n))


BUILTIN_T = (types.BuiltinFunctionType, type(''.join), type(str.join), type, type([].append), types.MethodWrapperType)


_LRU = type(functools.lru_cache(lambda: 0))
CACHED = {}


def _cached(f, a, k):
    """functools.lru_cache and functools.cache, over symbolic arguments, too."""
    if type(f) is types.MethodType:
        a, f = (f.__self__,) + a, f.__func__
    key = a + tuple(x for n in k.items() for x in n)
    for x in key:
        if not is_key(x):
            hash(x)
    maxsize = f.cache_parameters()['maxsize']
    if maxsize == 0:
        return sx_call(f.__wrapped__, *a, **k)
    if f not in CACHED:
        CACHED[f] = []
    mem = CACHED[f]
    for i, (kk, v) in enumerate(mem):
        r = key_eq(kk, key)
        if r is True or r is not False and core.CUR.branch(r):
            mem.append(mem.pop(i))
            return v
    v = sx_call(f.__wrapped__, *a, **k)
    mem.append((key, v))
    if maxsize is not None and len(mem) > maxsize:
        mem.pop(0)
    return v


def sx_call(f, *a, **k):
    try:
        h = SPECIAL.get(f)
    except TypeError:
        h = None
    if h is not None:
        return h(*a, **k)
    if not a and not k:
        if type(f) is types.BuiltinFunctionType and f.__name__ == 'cache_clear':
            CACHED.pop(f.__self__, None)
        return f()
    tf = type(f)
    if tf is _LRU or tf is types.MethodType and type(f.__func__) is _LRU:
        return _cached(f, a, k)
    sym = False
    for x in a:
        t = type(x)
        if t is SxVal or t is SxBool or t is SymCommand:
            sym = True
            break
    if not sym and k:
        for x in k.values():
            t = type(x)
            if t is SxVal or t is SxBool or t is SymCommand:
                sym = True
                break
    if sym and isinstance(f, types.BuiltinFunctionType) and type(f.__self__) is re.Pattern:
        return _pattern(f.__self__, f.__name__, a, k)
    if sym and tf is types.FunctionType and hasattr(f, 'dispatch') and hasattr(f, 'registry'):      # functools.singledispatch
        x = a[0]
        if type(x) is SxVal and not x.is_str():
            x = wrap(x.choose())
            a = (x,) + a[1:]
        return sx_call(f.dispatch(_type(x)), *a, **k)
    if sym and tf is types.MethodWrapperType and type(f.__self__) is str and f.__name__ in ('__eq__', '__ne__', '__contains__', '__add__'):
        return {'__eq__': lambda s, x: x == s, '__ne__': lambda s, x: x != s, '__contains__': lambda s, x: sx_in(x, s),
                '__add__': lambda s, x: s + x}[f.__name__](f.__self__, a[0])
    if sym and tf is types.MethodDescriptorType and f.__objclass__ is str and type(a[0]) is SxVal:
        return core.call_method(a[0], f.__name__, a[1:], k)
    if tf is types.BuiltinFunctionType:      # includes bound builtin methods
        recv = f.__self__
        tr = type(recv)
        if tr is str and (sym or f.__name__ in ('join', 'format')):
            return core.call_method(recv, f.__name__, a, k)
        if sym:
            if tr is dict:
                return _dict_method(recv, f.__name__, a, k)
            if f in LIFTABLE and not k:
                return _lift_builtin(f, a)
    elif tf is type and sym:
        if f in LIFTABLE and not k and type(a[0]) is SxVal:
            return _lift_builtin(f, a)
    elif tf is type({}.get) and sym and type(f.__self__) is dict:
        return _dict_method(f.__self__, f.__name__, a, k)
    if not sym:
        try:
            return f(*a, **k)
        except TypeError as e:
            if not proxyish(e) or _instrumented(f):
                raise
            # a container of proxies met native code
            return f(*[deep_concretise(x) for x in a], **{n: deep_concretise(x) for n, x in k.items()})
    if _instrumented(f):
        return f(*a, **k)
    try:
        return f(*a, **k)
    except TypeError as e:
        if not proxyish(e):
            raise
        return f(*[deep_concretise(x) for x in a], **{n: deep_concretise(x) for n, x in k.items()})


def _instrumented(f):
    fn = getattr(f, '__func__', f)
    g = getattr(fn, '__globals__', None)
    if g is not None:
        return '__sx_call__' in g
    if isinstance(f, type):
        m = sys.modules.get(f.__module__)
        return m is not None and hasattr(m, '__sx_call__')
    return False


def _dict_method(d, name, a, k):
    if name == 'get':
        return native_get(d, a[0], *(a[1:] or (k.get('default'),)))
    if name == '__contains__':
        return mkbool(native_present(d.keys(), a[0]))
    if name == '__getitem__':
        return native_getitem(d, a[0])
    if is_sx(a[0]):
        a = (a[0].concrete() if type(a[0]) is SxVal else bool(a[0]),) + tuple(a[1:])
    return getattr(d, name)(*a, **k)


class SymStringIO:
    """io.StringIO over a symbolic string (read-only use)."""

    def __new__(cls, initial='', *a):
        if is_sx(initial) or isinstance(initial, SymCommand):
            return object.__new__(cls)
        return io.StringIO(initial, *a)

    def __init__(self, initial='', *a):
        if isinstance(initial, SymCommand):
            initial = initial.text()
        self.chars = list(initial)
        self.i = 0

    def read(self, n=-1):
        if n is None or n < 0:
            n = len(self.chars) - self.i
        part = self.chars[self.i:self.i + n]
        self.i += len(part)
        acc = ''
        for p in part:
            acc = acc + p
        return acc

    def readline(self):
        acc = ''
        while self.i < len(self.chars):
            c = self.chars[self.i]
            self.i += 1
            acc = acc + c
            if bool(c == '\n'):
                break
        return acc

    def close(self):
        pass


NAMES = {
    '__sx_call__': sx_call, '__sx_in__': sx_in, '__sx_notin__': sx_notin, '__sx_is__': sx_is,
    '__sx_isnot__': sx_isnot, '__sx_getitem__': sx_getitem, '__sx_mkset__': sx_mkset,
    '__sx_mkdict__': sx_mkdict, '__sx_mkdict2__': sx_mkdict2, '__sx_subject__': sx_subject, '__sx_fmt__': sx_fmt, '__sx_exc__': sx_exc,
}
