"""Harness environment: the part shared by the symbolic run and the concrete replay (no z3 here).

A harness is an ordinary Python function  h(E, p):  it draws inputs from E, runs the code under test and states checks.
The same harness source is executed symbolically (instrumented, E = symx.env.SymEnv) and concretely (plain, E = ConcEnv).
"""
import enum


class Vacuous(BaseException):
    """A concrete run left the assumed domain."""


class Result:
    __slots__ = ('ok', 'value', 'exc')

    def __init__(self, ok, value, exc):
        self.ok, self.value, self.exc = ok, value, exc


def snapshot(x, leaf, depth=0, seen=()):
    """Plain structure of x; `leaf(x)` returns (True, y) for values it handles itself."""
    h, y = leaf(x)
    if h:
        return y
    if x is None or isinstance(x, (bool, int, float, str)) and not isinstance(x, enum.Enum):
        return x
    if isinstance(x, bytes):
        return x.decode('latin-1')
    if isinstance(x, enum.Enum):
        return '%s.%s' % (type(x).__name__, x.name)
    if depth > 60 or id(x) in seen:
        return '<deep>'
    seen = seen + (id(x),)
    if isinstance(x, (list, tuple)):
        return [snapshot(y, leaf, depth + 1, seen) for y in x]
    if isinstance(x, dict):
        return ['dict'] + [[snapshot(k, leaf, depth + 1, seen), snapshot(v, leaf, depth + 1, seen)] for k, v in x.items()]
    if isinstance(x, (set, frozenset)):
        return ['set'] + [snapshot(k, leaf, depth + 1, seen) for k in x]
    if isinstance(x, BaseException):
        return ['exc', type(x).__name__]
    if isinstance(x, type) or callable(x) and not hasattr(x, '__dict__'):
        return '<%s>' % getattr(x, '__name__', '?')
    d = getattr(x, '__dict__', None)
    if d is not None:
        return [type(x).__name__] + [[k, snapshot(v, leaf, depth + 1, seen)] for k, v in sorted(d.items())]
    return '<%s>' % type(x).__name__


def _noleaf(x):
    return False, None


def canon(x):
    """Order-independent form of 'dict' and 'set' snapshots."""
    if isinstance(x, list):
        ys = [canon(y) for y in x]
        if ys and ys[0] in ('dict', 'set') and isinstance(ys[0], str):
            return [ys[0]] + sorted(ys[1:], key=repr)
        return ys
    return x


class Base:
    symbolic = False

    def __init__(self):
        self.obls = []      # (guard, message)
        self.obs = []
        self.tags = {}
        self.known_used = []

    def reach(self, tag):
        self.tags[tag] = self.tags.get(tag, 0) + 1

    def fail(self, msg):
        self.check(False, msg)


class ConcEnv(Base):
    """Concrete replay of one input assignment."""

    def __init__(self, inputs, known=()):
        Base.__init__(self)
        self.inputs = inputs
        self.known_ids = set(known)
        self.failed = []
        self.known_hits = []

    def _in(self, name, default):
        return self.inputs.get(name, default)

    def word(self, name, vocab=(), raw=(), alphabet=None):
        d = vocab[0] if vocab else 'a' * raw[0]
        return self._in(name, d)

    def pick(self, name, values):
        values = list(values)
        i = self._in(name, 0)
        return values[i if i < len(values) else 0]

    def choose(self, name, n):
        return self._in(name, 0)

    def boolean(self, name):
        return bool(self._in(name, 0))

    def assume(self, c):
        if not c:
            raise Vacuous()

    def command(self, words):
        import shlex
        return ' '.join(shlex.quote(w) for w in words)

    def observe(self, label, x):
        self.obs.append([label, snapshot(x, _noleaf)])

    def observe_table(self, label, f, x):
        self.obs.append([label, snapshot(f(x), _noleaf)])

    def check(self, c, msg):
        if not c:
            self.failed.append(msg)

    def check_known(self, kf, pred, c, msg):
        """c must hold, except that a failure inside `pred` is the recorded known finding kf (if the file lists it)."""
        if c:
            return
        if kf in self.known_ids and pred:
            self.known_hits.append(kf)
        else:
            self.failed.append(msg)

    def call(self, f, *a, **k):
        try:
            return Result(True, f(*a, **k), None)
        except Exception as e:
            return Result(False, None, e)

    def same(self, a, b):
        return snap_eq(a, b)

    def all(self, conds):
        return all(bool(c) for c in conds)

    def any(self, conds):
        return any(bool(c) for c in conds)

    def neg(self, c):
        return not c

    def eq(self, a, b):
        return a == b

    def ite(self, c, a, b):
        return a if c else b

    def count(self, conds):
        return sum(1 for c in conds if c)

    def table(self, f, *xs):
        return f(*xs)

    def unsupported(self, why):
        pass

    def apart(self, f):
        """Structure of what f returns when the package has been asked nothing else before: to be called first, f runs in a child process."""
        import json
        import os
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                data = json.dumps(snapshot(f(), _noleaf)).encode()
                i = 0
                while i < len(data):
                    i += os.write(w, data[i:])
            except BaseException as e:
                os.write(w, b'!' + repr(e).encode()[:500])
            finally:
                os._exit(0)
        os.close(w)
        buf = b''
        while True:
            b = os.read(r, 1 << 16)
            if not b:
                break
            buf += b
        os.close(r)
        os.waitpid(pid, 0)
        if not buf or buf[:1] == b'!':
            raise RuntimeError(buf.decode())
        return json.loads(buf)

    def capture_print(self):
        return _Capture()

    def simplify(self, x):
        return x

    def files(self):
        return _Files()

    def script(self, path):
        import runpy
        runpy.run_path(path, run_name='__main__')

    def shlex(self):
        import shlex
        return shlex


class _Capture:
    def __enter__(self):
        import io, contextlib
        self.f = io.StringIO()
        self.cm = contextlib.redirect_stdout(self.f)
        self.cm.__enter__()
        return self

    def __exit__(self, *a):
        self.cm.__exit__(*a)

    def text(self):
        return self.f.getvalue()


class _Files:
    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass

    def text(self, path):
        import os
        return open(path).read() if os.path.isfile(path) else None


def snap_eq(a, b):
    """Deep structural equality that does not rely on the package's own __eq__."""
    return canon(snapshot(a, _noleaf)) == canon(snapshot(b, _noleaf))
