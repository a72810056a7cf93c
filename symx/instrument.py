"""AST instrumentation of the current sources of the package under test."""
import ast
import importlib.abc
import importlib.machinery
import importlib.util
import os
import sys
import types

from . import shims

NO_WRAP = {'super', 'locals', 'globals', 'vars', 'exec', 'eval', 'dir', '__import__', 'breakpoint'}


def _name(n):
    return ast.Name(id=n, ctx=ast.Load())


def _call(n, args):
    return ast.Call(func=_name(n), args=args, keywords=[])


class Rewriter(ast.NodeTransformer):
    def visit_Call(self, node):
        self.generic_visit(node)
        if isinstance(node.func, ast.Name) and (node.func.id in NO_WRAP or node.func.id.startswith('__sx_')):
            return node
        return ast.copy_location(ast.Call(func=_name('__sx_call__'), args=[node.func] + node.args,
                                          keywords=node.keywords), node)

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) != 1:
            return node
        op = node.ops[0]
        m = {ast.In: '__sx_in__', ast.NotIn: '__sx_notin__', ast.Is: '__sx_is__', ast.IsNot: '__sx_isnot__'}
        n = m.get(type(op))
        if n is None:
            return node
        return ast.copy_location(_call(n, [node.left, node.comparators[0]]), node)

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if not isinstance(node.ctx, ast.Load):
            return node
        k = node.slice
        if isinstance(k, ast.Slice):
            none = ast.Constant(value=None)
            k = ast.Call(func=_name('slice'), args=[k.lower or none, k.upper or none, k.step or none], keywords=[])
        elif any(isinstance(x, (ast.Slice, ast.Starred)) for x in ast.walk(k)):
            return node
        return ast.copy_location(_call('__sx_getitem__', [node.value, k]), node)

    def visit_JoinedStr(self, node):
        parts = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                val = self.visit(v.value)
                conv = ast.Constant(value=None if v.conversion == -1 else chr(v.conversion))
                spec = ast.Constant(value=None) if v.format_spec is None else self.visit(v.format_spec)
                parts.append(ast.Tuple(elts=[val, conv, spec], ctx=ast.Load()))
        return ast.copy_location(_call('__sx_fmt__', [ast.List(elts=parts, ctx=ast.Load())]), node)

    def visit_Set(self, node):
        self.generic_visit(node)
        return ast.copy_location(_call('__sx_mkset__', [ast.List(elts=node.elts, ctx=ast.Load())]), node)

    def visit_SetComp(self, node):
        self.generic_visit(node)
        return ast.copy_location(_call('__sx_mkset__', [ast.GeneratorExp(elt=node.elt, generators=node.generators)]), node)

    def visit_Dict(self, node):
        self.generic_visit(node)
        if any(k is None for k in node.keys):
            parts = [ast.Tuple(elts=[v], ctx=ast.Load()) if k is None else ast.Tuple(elts=[k, v], ctx=ast.Load())
                     for k, v in zip(node.keys, node.values)]
            return ast.copy_location(_call('__sx_mkdict2__', [ast.List(elts=parts, ctx=ast.Load())]), node)
        pairs = [ast.Tuple(elts=[k, v], ctx=ast.Load()) for k, v in zip(node.keys, node.values)]
        return ast.copy_location(_call('__sx_mkdict__', [ast.List(elts=pairs, ctx=ast.Load())]), node)

    def visit_DictComp(self, node):
        self.generic_visit(node)
        pair = ast.Tuple(elts=[node.key, node.value], ctx=ast.Load())
        return ast.copy_location(_call('__sx_mkdict__', [ast.GeneratorExp(elt=pair, generators=node.generators)]), node)

    def visit_ExceptHandler(self, node):
        self.generic_visit(node)
        node.body.insert(0, ast.copy_location(ast.Expr(_call('__sx_exc__', [])), node.body[0]))
        return node

    # patterns and annotations keep their form
    def visit_match_case(self, node):
        node.guard = self.visit(node.guard) if node.guard else None
        node.body = [self.visit(b) for b in node.body]
        self.type_pattern(node)
        return node

    def visit_Match(self, node):
        node.subject = ast.copy_location(_call('__sx_subject__', [self.visit(node.subject)]), node.subject)
        node.cases = [self.visit(c) for c in node.cases]
        return node

    def type_pattern(self, node):
        """`case str() as x` and the like become a guard, so that they apply to unions, too."""
        p, name = node.pattern, None
        if isinstance(p, ast.MatchAs) and p.pattern is not None:
            p, name = p.pattern, p.name
        alts = p.patterns if isinstance(p, ast.MatchOr) else [p]
        if not all(isinstance(a, ast.MatchClass) and isinstance(a.cls, ast.Name) and not a.kwd_patterns for a in alts):
            return
        binds = [a.patterns for a in alts]
        if any(binds) and (len(alts) > 1 or len(binds[0]) != 1 or name or alts[0].cls.id not in ('str', 'int', 'bool', 'list', 'dict', 'set', 'tuple') or
                           not isinstance(binds[0][0], ast.MatchAs) or binds[0][0].pattern is not None or binds[0][0].name is None):
            return
        if any(binds):
            name = binds[0][0].name
        name = name or '__sx_subject_value__'
        test = _call('__sx_call__', [_name('isinstance'), _name(name), ast.Tuple(elts=[_name(a.cls.id) for a in alts], ctx=ast.Load())])
        node.pattern = ast.copy_location(ast.MatchAs(pattern=None, name=name), node.pattern)
        node.guard = test if node.guard is None else ast.BoolOp(op=ast.And(), values=[test, node.guard])

    def visit_AnnAssign(self, node):
        if node.value is not None:
            node.value = self.visit(node.value)
        if isinstance(node.target, ast.Attribute):
            node.target = self.visit(node.target)
        return node

    def visit_arg(self, node):
        return node

    def visit_FunctionDef(self, node):
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        node.args = self.visit(node.args)
        new = []
        for b in node.body:
            r = self.visit(b)
            new.append(r)
        node.body = new
        return node

    visit_AsyncFunctionDef = visit_FunctionDef


def instrument_source(src, filename):
    tree = ast.parse(src, filename)
    tree = Rewriter().visit(tree)
    ast.fix_missing_locations(tree)
    return compile(tree, filename, 'exec', dont_inherit=True)


class Loader(importlib.machinery.SourceFileLoader):
    def get_code(self, fullname):
        path = self.get_filename(fullname)
        with open(path, 'rb') as f:
            src = f.read()
        ENCODED.append(path)
        return instrument_source(src, path)

    def exec_module(self, module):
        module.__dict__.update(shims.NAMES)
        exec(self.get_code(module.__name__), module.__dict__)


ENCODED = []


class Finder(importlib.abc.MetaPathFinder):
    def __init__(self, pkg, root):
        self.pkg, self.root = pkg, root

    def find_spec(self, name, path=None, target=None):
        if name != self.pkg and not name.startswith(self.pkg + '.'):
            return None
        base = os.path.join(self.root, *name.split('.'))
        init = os.path.join(base, '__init__.py')
        if os.path.isdir(base) and os.path.exists(init):
            return importlib.util.spec_from_file_location(name, init, loader=Loader(name, init),
                                                          submodule_search_locations=[base])
        if os.path.isdir(base) and not os.path.exists(base + '.py'):
            spec = importlib.machinery.ModuleSpec(name, None, is_package=True)
            spec.submodule_search_locations = [base]
            return spec
        f = base + '.py'
        if os.path.exists(f):
            return importlib.util.spec_from_file_location(name, f, loader=Loader(name, f))
        return None


def install(pkg, root):
    sys.dont_write_bytecode = True
    sys.meta_path.insert(0, Finder(pkg, root))


def load_instrumented_stdlib(name, extra=None):
    """A private instrumented copy of a standard-library module (e.g. shlex)."""
    spec = importlib.util.find_spec(name)
    with open(spec.origin, 'rb') as f:
        code = instrument_source(f.read(), spec.origin)
    m = types.ModuleType('sx_' + name)
    m.__file__ = spec.origin
    m.__dict__.update(shims.NAMES)
    exec(code, m.__dict__)
    if extra:
        m.__dict__.update(extra)
    ENCODED.append(spec.origin)
    return m


class StateGuard:
    """Restores module-level state of the instrumented package before every path, so that re-execution is deterministic."""

    def __init__(self, pkg):
        self.saved = []
        self.caches = []
        seen = set()
        for name, m in list(sys.modules.items()):
            if m is None or not (name == pkg or name.startswith(pkg + '.')):
                continue
            self._ns(vars(m), seen, m)
        self.ns = [(m, dict(vars(m))) for name, m in list(sys.modules.items())
                   if m is not None and (name == pkg or name.startswith(pkg + '.'))]

    def _ns(self, ns, seen, owner):
        for k, v in list(ns.items()):
            if k.startswith('__'):
                continue
            self._val(v, seen)

    def _val(self, v, seen):
        if id(v) in seen:
            return
        seen.add(id(v))
        if isinstance(v, (list, dict, set)) and type(v) is not types.MappingProxyType:
            self._save(v, seen)
        elif hasattr(v, 'cache_clear'):
            self.caches.append(v)
            if hasattr(v, '__wrapped__'):
                self._val(v.__wrapped__, seen)
        elif isinstance(v, types.FunctionType) and '__sx_call__' in v.__globals__:
            for d in (v.__defaults__ or ()):
                self._val(d, seen)
            for d in (v.__kwdefaults__ or {}).values():
                self._val(d, seen)
            for c in (v.__closure__ or ()):
                try:
                    self._val(c.cell_contents, seen)
                except ValueError:
                    pass
            if v.__dict__:
                self._val(v.__dict__, seen)
        elif isinstance(v, type) and getattr(sys.modules.get(v.__module__), '__sx_call__', None):
            self.saved.append((v, 'class', {k: x for k, x in vars(v).items()}))
            for k, x in list(vars(v).items()):
                if isinstance(x, (staticmethod, classmethod)):
                    x = x.__func__
                if not k.startswith('__') or k in ('__init__', '__new__', '__call__'):
                    self._val(x, seen)
        elif hasattr(v, '__dict__') and type(v).__module__ and \
                getattr(sys.modules.get(type(v).__module__), '__sx_call__', None) and not hasattr(type(v), '__members__'):
            self._save(v.__dict__, seen)

    def _save(self, v, seen):
        if isinstance(v, list):
            self.saved.append((v, 'list', list(v)))
            for x in v:
                self._val(x, seen)
        elif isinstance(v, shims.SymDict):
            self.saved.append((v, 'symdict', (dict(dict.items(v)), None if v._e is None else [list(e) for e in v._e])))
        elif isinstance(v, dict):
            self.saved.append((v, 'dict', dict(v)))
            for x in v.values():
                self._val(x, seen)
        elif isinstance(v, shims.SymSet):
            self.saved.append((v, 'symset', (set(set.__iter__(v)), list(v._s))))
        elif isinstance(v, set):
            self.saved.append((v, 'set', set(v)))

    def restore(self):
        for v, kind, old in self.saved:
            if kind == 'list':
                if len(v) != len(old) or any(a is not b for a, b in zip(v, old)):
                    v[:] = old
            elif kind == 'dict':
                if len(v) != len(old) or any(v.get(k, v) is not x for k, x in old.items()):
                    v.clear()
                    v.update(old)
            elif kind == 'symdict':
                if v._e is not None or dict.__len__(v) != len(old[0]) or old[1] is not None or \
                        any(dict.get(v, k, v) is not x for k, x in old[0].items()):
                    dict.clear(v)
                    for k, x in old[0].items():
                        dict.__setitem__(v, k, x)
                    v._e = None if old[1] is None else [list(e) for e in old[1]]
            elif kind == 'symset':
                if v._s or set.__len__(v) != len(old[0]):
                    set.clear(v)
                    for x in old[0]:
                        set.add(v, x)
                    v._s = list(old[1])
            elif kind == 'set':
                if v != old:
                    v.clear()
                    v.update(old)
            elif kind == 'class':
                cur = vars(v)
                for k, x in old.items():
                    if k.startswith('__'):
                        continue
                    if cur.get(k, v) is not x:
                        setattr(v, k, x)
                for k in list(cur):
                    if k not in old and not k.startswith('__') and not k.startswith('_abc'):
                        delattr(v, k)
        for m, old in self.ns:
            cur = vars(m)
            for k, x in old.items():
                if cur.get(k, m) is not x:
                    cur[k] = x
            for k in list(cur):
                if k not in old:
                    del cur[k]
        for c in self.caches:
            c.cache_clear()
        shims.CACHED.clear()
