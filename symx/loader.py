"""Load /repo/termfactory from its current source.

load(): an AST pass drops the logging/printing statements (they would force
symbolic values to become concrete and are not part of any property) and
binds `range`, `isinstance` and `is True/False` to versions that accept
symbolic values.  Everything else of
the module is executed as written.
plain(): the same modules, untouched (used for every replay).
"""
import ast
import builtins
import importlib
import io
import logging
import os
import sys
import types
import tempfile
import atexit
import shutil
import contextlib

REPO = os.environ.get('TF_REPO', '/repo')
SRC = os.path.join(REPO, 'termfactory')

LOG_NAMES = {'log', 'header_log', 'subheader_log'}
PRINT_NAMES = {'print', 'old_print_wrapper'}

_scratch = None


def scratch():
    """a private working directory (modules open log files in the cwd)."""
    global _scratch
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix='tfcheck_')
        atexit.register(shutil.rmtree, _scratch, True)
        os.chdir(_scratch)
    return _scratch


@contextlib.contextmanager
def own_place():
    """a new, empty working, home and temporary directory; gone afterwards"""
    d = tempfile.mkdtemp(prefix='tfplace_')
    cwd, env, tmp = os.getcwd(), dict(os.environ), tempfile.tempdir
    for x in ('home', 'tmp'):
        os.mkdir(os.path.join(d, x))
    os.chdir(d)
    os.environ.update(HOME=d + '/home', TMPDIR=d + '/tmp')
    os.environ.pop('XDG_CACHE_HOME', None)
    tempfile.tempdir = d + '/tmp'
    try:
        yield d
    finally:
        os.chdir(cwd)
        for x in ('HOME', 'TMPDIR', 'XDG_CACHE_HOME'):
            os.environ.pop(x, None)
            if x in env:
                os.environ[x] = env[x]
        tempfile.tempdir = tmp
        shutil.rmtree(d, True)


def remove_scratch():
    global _scratch
    if _scratch:
        os.chdir('/')
        shutil.rmtree(_scratch, True)
        _scratch = None


class _Strip(ast.NodeTransformer):
    def visit_Expr(self, node):
        c = node.value
        if isinstance(c, ast.Call):
            f = c.func
            if isinstance(f, ast.Name) and f.id in PRINT_NAMES:
                return ast.copy_location(ast.Pass(), node)
            if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and f.value.id in LOG_NAMES:
                return ast.copy_location(ast.Pass(), node)
        self.generic_visit(node)
        return node

    def visit_Compare(self, node):
        # `x is True` / `x is False`: identity of a symbolic boolean is its value
        self.generic_visit(node)
        if len(node.ops) == 1 and isinstance(node.ops[0], (ast.Is, ast.IsNot)) and \
                isinstance(node.comparators[0], ast.Constant) and isinstance(node.comparators[0].value, bool):
            call = ast.Call(ast.Name('__sym_is__', ast.Load()), [node.left, node.comparators[0]], [])
            if isinstance(node.ops[0], ast.IsNot):
                call = ast.UnaryOp(ast.Not(), call)
            return ast.copy_location(call, node)
        return node


def _fake_log_conf():
    m = types.ModuleType('log_conf')
    m.logging = logging

    class L:
        level = logging.INFO

        def __getattr__(self, n):
            return lambda *a, **k: None

    for n in ('get_filebased_logger', 'get_stdout_logger', 'HeaderAdapter', 'SubHeaderAdapter'):
        setattr(m, n, lambda *a, **k: L())
    for n in ('Critical', 'Error', 'Warning', 'Flow', 'Info', 'Debug'):
        setattr(m, 'setLevel' + n, lambda *a, **k: None)
    return m


class _Sets(ast.NodeTransformer):
    """set displays and comprehensions become calls of set()"""
    def visit_Set(self, node):
        self.generic_visit(node)
        return self._call(node, ast.List(node.elts, ast.Load()))

    def visit_SetComp(self, node):
        self.generic_visit(node)
        return self._call(node, ast.ListComp(node.elt, node.generators))

    def _call(self, node, arg):
        return ast.copy_location(ast.Call(ast.Name('set', ast.Load()), [arg], []), node)


_code = {}


def _compiled(path, sym, sets):
    st = os.stat(path)
    key = (path, sym, sets, st.st_mtime_ns, st.st_size)
    if key not in _code:
        with open(path) as f:
            tree = ast.parse(f.read(), path)
        if sym:
            tree = _Strip().visit(tree)
        if sets:
            tree = _Sets().visit(tree)
        _code[key] = compile(ast.fix_missing_locations(tree), path, 'exec')
    return _code[key]


class Modules:
    """lazy namespace of repo modules"""
    def __init__(self, sym, extra=None, real_log=False):
        self._sym, self._mods, self._extra, self._no_log = sym, {}, extra or {}, sym and not real_log

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        return self._load(name)

    def _loaded(self):
        return set(self._mods)

    def _fresh(self, *names):
        """forget modules, so that they are executed again when they are next used"""
        for n in names:
            self._mods.pop(n, None)

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        """`import` inside the modules, also inside their functions, reaches our versions"""
        if not level and '.' not in name and os.path.exists(os.path.join(SRC, name + '.py')):
            if name in sys.modules and name == 'log_conf' and self._no_log:
                return sys.modules[name]
            return _fake_log_conf() if name == 'log_conf' and self._no_log else self._load(name)
        return builtins.__import__(name, globals, locals, fromlist, level)

    def _main(self, name, extra=None):
        """execute a module as the main program"""
        return self._load(name, main=True, extra=extra)

    def _load(self, name, main=False, extra=None):
        if name in self._mods and not main:
            return self._mods[name]
        scratch()
        path = os.path.join(SRC, name + '.py')
        code = _compiled(path, self._sym, 'set' in self._extra)
        from . import engine
        mod = types.ModuleType('__main__' if main else name)
        mod.__file__ = path
        if self._sym:
            mod.__dict__.update(range=engine.sym_range, isinstance=engine.sym_isinstance, __sym_is__=engine.sym_is)
        mod.__dict__.update(self._extra, **(extra or {}))
        mod.__dict__['__builtins__'] = dict(builtins.__dict__, __import__=self._import)
        if not main:
            self._mods[name] = mod
        saved = {}
        # imports of sibling modules must resolve to our versions
        finder = _Finder(self)
        sys.meta_path.insert(0, finder)
        names = [f[:-3] for f in os.listdir(SRC) if f.endswith('.py')]
        for n in names + ['log_conf']:
            if n in sys.modules:
                saved[n] = sys.modules.pop(n)
        for n, m in self._mods.items():
            sys.modules[n] = m
        try:
            if self._no_log:
                sys.modules['log_conf'] = _fake_log_conf()
            with quiet():
                exec(code, mod.__dict__)
        finally:
            sys.meta_path.remove(finder)
            for n in names + ['log_conf']:
                sys.modules.pop(n, None)
            sys.modules.update(saved)
        return mod


class _Finder:
    def __init__(self, mods):
        self.mods = mods

    def find_spec(self, name, path=None, target=None):
        if '.' in name or not os.path.exists(os.path.join(SRC, name + '.py')):
            return None
        if name == 'log_conf' and self.mods._no_log:
            return None
        from importlib.machinery import ModuleSpec
        return ModuleSpec(name, self)

    def create_module(self, spec):
        return self.mods._load(spec.name)

    def exec_module(self, module):
        pass


@contextlib.contextmanager
def quiet():
    """swallow what the generators print"""
    old = sys.stdout
    sys.stdout = io.StringIO()
    try:
        yield
    finally:
        sys.stdout = old


def load(extra=None, real_log=False):
    return Modules(True, extra, real_log)


class Plain:
    """the untouched modules, imported the way the repository imports them"""
    def __init__(self):
        scratch()
        sys.dont_write_bytecode = True
        if SRC not in sys.path:
            sys.path.insert(0, SRC)

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        with quiet():
            return importlib.import_module(name)

    def _loaded(self):
        return {n for n in sys.modules if os.path.exists(os.path.join(SRC, n + '.py'))}

    def _fresh(self, *names):
        for n in names:
            sys.modules.pop(n, None)

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        """`import` inside the modules, also inside their functions, reaches our versions"""
        if not level and '.' not in name and os.path.exists(os.path.join(SRC, name + '.py')):
            if name in sys.modules and name == 'log_conf' and self._sym:
                return sys.modules[name]
            return _fake_log_conf() if name == 'log_conf' and self._sym else self._load(name)
        return builtins.__import__(name, globals, locals, fromlist, level)

    def _main(self, name, extra=None):
        import runpy
        with quiet():
            return runpy.run_path(os.path.join(SRC, name + '.py'), run_name='__main__')


def plain():
    return Plain()
