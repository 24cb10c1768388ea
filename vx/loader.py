"""
Loads the repository's modules twice: as they are (for replay) and as
"symbolic twins" - the same source text, executed with numpy, math and a few
builtins replaced by the symbolic facades.
"""
import ast
import builtins
import importlib
import os
import sys
import types

from . import REPO, core, nps


def source_path(modname, repo=None):
    base = os.path.join(repo or REPO, *modname.split('.'))
    for p in (base + '.py', os.path.join(base, '__init__.py')):
        if os.path.exists(p):
            return p
    return None


class _Formats(ast.NodeTransformer):
    """"..." % x  ->  a call that can print symbolic values"""

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod) and isinstance(node.left, ast.Constant) and isinstance(node.left.value, str):
            return ast.copy_location(ast.Call(ast.Name('__vx_format__', ast.Load()), [node.left, node.right], []), node)
        return node


def _format(fmt, args):
    try:
        return fmt % args
    except core.Unsupported:
        pass

    def plain(x):
        if isinstance(x, core.SymBase) or nps.has_sym(x):
            return 0.0
        return x
    if isinstance(args, tuple):
        return fmt % tuple(plain(a) for a in args)
    if isinstance(args, dict):
        return fmt % {k: plain(a) for k, a in args.items()}
    return fmt % plain(args)


class Universe(object):
    """A set of symbolic twins sharing one import mapping."""

    def __init__(self, symbolic=(), stubs=None, np_extra=None, real=()):
        self.symbolic = set(symbolic)
        self.stubs = dict(stubs or {})
        self.np = nps.Facade(np_extra)
        self.math = nps.MathFacade()
        self.cache = {}
        self.sources = {}
        self.real = set(real)
        self.builtins = dict(vars(builtins))
        self.builtins.update(nps.BUILTINS)
        self.builtins['__import__'] = self._import
        self.builtins['print'] = lambda *a, **k: None
        self.builtins['__vx_format__'] = _format

    def _resolve(self, full):
        if full in self.stubs:
            return self.stubs[full]
        if full in ('numpy',):
            return self.np
        if full == 'math':
            return self.math
        if full in self.symbolic:
            return self.load(full)
        return None

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        full = name
        if level:
            pkg = globals.get('__package__') or globals['__name__'].rpartition('.')[0]
            for _ in range(level - 1):
                pkg = pkg.rpartition('.')[0]
            full = pkg + ('.' + name if name else '')
        top = full.split('.')[0]
        if not fromlist:
            r = self._resolve(full)
            if r is not None and '.' not in full:
                return r
            if '.' in full and (r is not None):
                # import a.b.c  -> returns a with the chain replaced
                real = _Chain(top)
                cur = real
                parts = full.split('.')
                for p in parts[1:-1]:
                    nxt = _Chain(p)
                    setattr(cur, p, nxt)
                    cur = nxt
                setattr(cur, parts[-1], r)
                return real
            return builtins.__import__(name, globals, locals, fromlist, level)
        r = self._resolve(full)
        subs = {}
        for f in fromlist:
            s = self._resolve(full + '.' + f)
            if s is not None:
                subs[f] = s
        if r is not None:
            for f, s in subs.items():
                if not isinstance(r, nps.Facade):
                    setattr(r, f, s)
            if full in self.cache:
                for f in fromlist:
                    # a submodule of a package that is a twin itself
                    if f != '*' and not hasattr(r, f) and source_path(full + '.' + f):
                        setattr(r, f, importlib.import_module(full + '.' + f))
            return r
        if subs:
            ns = types.ModuleType(full)
            real = None
            for f in fromlist:
                if f in subs:
                    setattr(ns, f, subs[f])
                else:
                    if real is None:
                        real = importlib.import_module(full)
                    if hasattr(real, f):
                        setattr(ns, f, getattr(real, f))
                    else:
                        setattr(ns, f, importlib.import_module(full + '.' + f))
            return ns
        if full == 'numpy.ma':
            return builtins.__import__(name, globals, locals, fromlist, level)
        return builtins.__import__(name, globals, locals, fromlist, level)

    def load(self, modname):
        if modname in self.cache:
            return self.cache[modname]
        path = source_path(modname)
        if path is None:
            raise ImportError(modname)
        with open(path) as fh:
            src = fh.read()
        self.sources[modname] = src
        m = types.ModuleType(modname)
        m.__file__ = path
        m.__package__ = modname if path.endswith('__init__.py') else modname.rpartition('.')[0]
        m.__dict__['__builtins__'] = self.builtins
        self.cache[modname] = m
        code = compile(ast.fix_missing_locations(_Formats().visit(ast.parse(src, path))), path, 'exec')
        try:
            exec(code, m.__dict__)
        except BaseException:
            self.cache.pop(modname, None)
            raise
        # `math` and names taken from it may have been bound by from-imports
        return m


class _Chain(types.ModuleType):
    def __init__(self, name):
        types.ModuleType.__init__(self, name)

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        return getattr(importlib.import_module(self.__name__), n)


def real(modname):
    """The unmodified module, for replay."""
    return importlib.import_module(modname)


def fresh(modname, private=()):
    """A private instance of the unmodified module (its globals are ours);
    the modules listed in ``private`` are private to it as well."""
    if private:
        saved = {n: sys.modules.get(n) for n in private}
        own = {n: fresh(n) for n in private}
        parents = {}
        try:
            for n, m in own.items():
                sys.modules[n] = m
                pk, _, leaf = n.rpartition('.')
                if pk:
                    parents[n] = getattr(importlib.import_module(pk), leaf, None)
                    setattr(sys.modules[pk], leaf, m)
            m = fresh(modname)
            m.__private__ = own
            return m
        finally:
            for n in private:
                if saved[n] is None:
                    sys.modules.pop(n, None)
                else:
                    sys.modules[n] = saved[n]
                pk, _, leaf = n.rpartition('.')
                if pk and parents.get(n) is not None:
                    setattr(sys.modules[pk], leaf, parents[n])
    path = source_path(modname)
    with open(path) as fh:
        src = fh.read()
    m = types.ModuleType(modname)
    m.__file__ = path
    m.__package__ = modname if path.endswith('__init__.py') else modname.rpartition('.')[0]
    m.__dict__['print'] = lambda *a, **k: None
    exec(compile(src, path, 'exec'), m.__dict__)
    return m
