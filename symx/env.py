"""Symbolic harness environment."""
import copy
import enum

import z3

from . import core, shims
from .core import SxBool, SxVal, RS, Limit, PathAbort, g_and, g_or, g_not, mk, mkbool, guard_of, eq_guard, IdxVar
from .envbase import Base, Result, snapshot, canon

ALPH = (1, 126)


class Late:
    """A function of a symbolic value, to be computed once the value is known."""

    def __init__(self, f, x):
        self.f, self.x = f, x


def _leaf(x):
    t = type(x)
    if t is Late:
        return True, x
    if t is SxVal or t is SxBool:
        return True, x
    if t is shims.SymCommand:
        return True, [_l(w) for w in x.words]
    if t in shims.SYM_DICTS:
        return True, ['dict'] + [[snapshot(k, _leaf), snapshot(v, _leaf)] for k, v in x.items()]
    if t is shims.SymSet:
        return True, ['set'] + [snapshot(k, _leaf) for k in x]
    return False, None


def _l(w):
    return w


def ev(x, m):
    """Value of a snapshot under a model."""
    t = type(x)
    if t is list:
        return [ev(y, m) for y in x]
    if t is SxBool:
        return z3.is_true(m.eval(x.g, model_completion=True))
    if t is Late:
        return x.f(ev(x.x, m))
    if t is SxVal:
        iv = None
        if len(x.alts) > 30:
            metas = [core.META.get(g.get_id()) if g is not True else None for g, v in x.alts]
            if all(metas) and len(set(id(q[0]) for q in metas)) == 1:
                iv = metas[0][0]
                k = m.eval(iv.term, model_completion=True).as_long()
        for n, (g, v) in enumerate(x.alts):
            if iv is not None and k not in metas[n][1]:
                continue
            if g is True or z3.is_true(m.eval(g, model_completion=True)):
                if type(v) is RS:
                    return ''.join(chr(c if type(c) is int else m.eval(c, model_completion=True).as_long())
                                   for c in v.ch)
                if isinstance(v, enum.Enum):
                    return '%s.%s' % (type(v).__name__, v.name)
                if v is None or isinstance(v, (str, int, float, bool)):
                    return v
                return snapshot(v, _leaf)
        raise Limit('no alternative holds under the model')
    return x


class SymEnv(Base):
    symbolic = True

    def __init__(self, known=()):
        Base.__init__(self)
        self.known_ids = set(known)
        self.ins = []           # (name, kind, payload)
        self.known_obl = []     # (kf, guard that the known finding shows)
        self.prints = None
        self.guard = None       # restores the package's own state

    # ------------------------------------------------------------- inputs
    def word(self, name, vocab=(), raw=(), alphabet=None):
        """A symbolic word: one of `vocab`, or any string of a length in `raw` over `alphabet` (codes 1..126 by default)."""
        vocab = list(vocab)
        raw = list(raw)
        n = len(vocab) + len(raw)
        mx = max(raw) if raw else 0
        iv = IdxVar.get(name, n) if n > 1 else None
        if iv is not None:
            core.CUR.assume(iv.dom_constraint)
        chars = [z3.BitVec('%s.%d' % (name, i), 8) for i in range(mx)]
        for c in chars:
            if alphabet is None:
                core.CUR.assume(z3.And(z3.UGE(c, ALPH[0]), z3.ULE(c, ALPH[1])))
            else:
                core.CUR.assume(z3.Or([c == ord(a) for a in sorted(alphabet)]))
        alts = []
        for i, v in enumerate(vocab + raw):
            g = iv.isin([i]) if iv is not None else True
            if i < len(vocab):
                alts.append((g, v))
            else:
                alts.append((g, core.rs(chars[:v])))
        r = mk(alts)
        self.ins.append((name, 'word', r))
        return r

    def pick(self, name, values):
        values = list(values)
        if len(values) == 1:
            return values[0]
        iv = IdxVar.get(name, len(values))
        core.CUR.assume(iv.dom_constraint)
        self.ins.append((name, 'idx', iv.term))
        return mk([(iv.isin([i]), v) for i, v in enumerate(values)])

    def choose(self, name, n):
        if n == 1:
            return 0
        iv = IdxVar.get(name, n)
        core.CUR.assume(iv.dom_constraint)
        self.ins.append((name, 'idx', iv.term))
        return core.CUR.multi([iv.isin([i]) for i in range(n)])

    def boolean(self, name):
        iv = IdxVar.get(name, 2)
        self.ins.append((name, 'idx', iv.term))
        return mkbool(iv.isin([1]))

    def assume(self, c):
        core.CUR.assume(guard_of(c))

    def command(self, words):
        return shims.SymCommand(list(words))

    # ------------------------------------------------------------- outputs
    def observe(self, label, x):
        self.obs.append([label, snapshot(x, _leaf)])

    def check(self, c, msg):
        g = guard_of(c)
        if core.CUR.quick(g) is True:
            core.CUR.stats['obligations'] += 1
            return
        self.obls.append((g, msg))

    def check_known(self, kf, pred, c, msg):
        if kf not in self.known_ids:
            return self.check(c, msg)
        c, pred = guard_of(c), guard_of(pred)
        self.check(mkbool(g_or(c, pred)), msg)
        self.known_obl.append((kf, g_and(pred, g_not(c))))

    def call(self, f, *a, **k):
        try:
            return Result(True, f(*a, **k), None)
        except Exception as e:
            if shims.proxyish(e):
                raise Limit('proxy: %s' % e)
            return Result(False, None, e)

    # ------------------------------------------------------------- fork-free combinators
    def same(self, a, b):
        """Guard: a and b have equal structure (independent of the package's own __eq__)."""
        return mkbool(sg(snapshot(a, _leaf), snapshot(b, _leaf)))

    def all(self, conds):
        return mkbool(g_and(*[guard_of(c) for c in conds]))

    def any(self, conds):
        return mkbool(g_or(*[guard_of(c) for c in conds]))

    def neg(self, c):
        return mkbool(g_not(guard_of(c)))

    def eq(self, a, b):
        if type(a) is SxVal or type(b) is SxVal:
            return mkbool(eq_guard(a, b))
        return a == b

    def ite(self, c, a, b):
        g = guard_of(c)
        if isinstance(g, bool):
            return a if g else b
        return mk([(g, a), (g_not(g), b)])

    def count(self, conds):
        """Number of true conditions, as a union."""
        dist = {0: True}
        for c in conds:
            g = guard_of(c)
            nd = {}
            for k, h in dist.items():
                for kk, gg in ((k, g_not(g)), (k + 1, g)):
                    x = g_and(h, gg)
                    if x is not False:
                        nd[kk] = g_or(nd.get(kk, False), x)
            dist = nd
        return mk([(h, k) for k, h in dist.items()])

    def table(self, f, *xs):
        """A pure function of concrete strings or numbers applied to symbolic ones, without a case split."""
        if not any(type(x) is SxVal for x in xs):
            return f(*xs)
        if len(xs) == 1:
            return core.lift(f, xs[0])
        return core.lift2(f, xs[0], xs[1])

    def observe_table(self, label, f, x):
        """Observe a pure function of x."""
        self.obs.append([label, Late(f, snapshot(x, _leaf))])

    def unsupported(self, why):
        raise Limit(why)

    def apart(self, f):
        """Structure of what f returns when the package has been asked nothing else before."""
        self.guard.restore()
        r = snapshot(copy.deepcopy(f()), _leaf)
        self.guard.restore()
        return r

    def capture_print(self):
        return _SymCapture()

    def files(self):
        return _SymFiles()

    def script(self, path):
        """Run a file as the main program."""
        import types
        from . import instrument
        m = types.ModuleType('__main__')
        m.__file__ = path
        m.__dict__.update(shims.NAMES)
        with open(path, 'rb') as f:
            code = instrument.instrument_source(f.read(), path)
        exec(code, m.__dict__)

    def shlex(self):
        return shims.HOOKS['shlex']

    def simplify(self, x):
        """Drop alternatives the path rules out."""
        if type(x) is SxVal:
            out = [(g, v) for g, v in x.alts if core.CUR.sat_with(g) != z3.unsat]
            return mk(out)
        return x


def sg(a, b):
    ta, tb = type(a), type(b)
    if ta is list and tb is list:
        if len(a) != len(b):
            return False
        if a and a[0] in ('dict', 'set') and a[0] == b[0] and type(a[0]) is str:
            # order-independent: every entry of a is in b (keys are distinct)
            return g_and(*[g_or(*[sg(x, y) for y in b[1:]]) for x in a[1:]])
        return g_and(*[sg(x, y) for x, y in zip(a, b)])
    if ta is list or tb is list:
        return False
    if ta is SxBool or tb is SxBool:
        if isinstance(a, (bool, SxBool)) and isinstance(b, (bool, SxBool)):
            ga, gb = guard_of(a), guard_of(b)
            return g_or(g_and(ga, gb), g_and(g_not(ga), g_not(gb)))
        return False
    if ta is SxVal or tb is SxVal:
        # enum members inside unions compare with the snapshot form of concrete ones
        a, b = _enumstr(a), _enumstr(b)
        if type(a) is SxVal or type(b) is SxVal:
            return eq_guard(a, b)
        return type(a) is type(b) and a == b
    return ta is tb and a == b


def _enumstr(x):
    if type(x) is SxVal and any(isinstance(v, enum.Enum) for g, v in x.alts):
        return mk([(g, '%s.%s' % (type(v).__name__, v.name) if isinstance(v, enum.Enum) else v) for g, v in x.alts])
    return x


class _SymCapture:
    def __enter__(self):
        self.acc = ''
        self.old = shims.HOOKS.get('print')

        def p(*args, sep=' ', end='\n', file=None, flush=False):
            t = ''
            for i, a in enumerate(args):
                if i:
                    t = t + sep
                t = t + core.sx_str(a)
            self.acc = self.acc + t + end
        shims.HOOKS['print'] = p
        return self

    def __exit__(self, *a):
        shims.HOOKS['print'] = self.old

    def text(self):
        return self.acc


class _SymFiles:
    """Files the program writes: really opened, with their symbolic text kept."""

    def __enter__(self):
        self.texts = {}
        self.old = shims.HOOKS.get('open')

        def o(path, mode='r', *a, **k):
            f = open(path, mode, *a, **k)
            if any(c in mode for c in 'wxa+') and 'b' not in mode:
                import os
                return shims.SymFile(f, os.path.realpath(path), self.texts, 'a' in mode or '+' in mode)
            return f
        shims.HOOKS['open'] = o
        return self

    def __exit__(self, *a):
        shims.HOOKS['open'] = self.old

    def text(self, path):
        import os
        p = os.path.realpath(path)
        old = open(p).read() if os.path.isfile(p) else None
        return (old or '') + self.texts[p] if p in self.texts else old
