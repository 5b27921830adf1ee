"""Load the modules of CHECLabPy from the working tree of /repo, with the
libraries they import replaced by the shims.  Every path of the exploration
gets freshly executed modules; source is compiled once per process."""
import ast
import builtins
import importlib
import importlib.abc
import importlib.machinery
import os
import sys

from . import shims

REPO = os.environ.get('VERIF_REPO', '/repo')
ROOT = 'CHECLabPy'
_code = {}
STUBS = {}


class _DropPrint(ast.NodeTransformer):
    """progress messages would force symbolic numbers into text"""

    def visit_Expr(self, node):
        self.generic_visit(node)
        c = node.value
        if isinstance(c, ast.Call) and isinstance(c.func, ast.Name) and \
                c.func.id == 'print':
            return ast.copy_location(ast.Pass(), node)
        return node


def compiled(path):
    c = _code.get(path)
    if c is None:
        with open(path, encoding='utf-8') as f:
            src = f.read()
        import warnings
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            tree = _DropPrint().visit(ast.parse(src, path))
            ast.fix_missing_locations(tree)
            c = compile(tree, path, 'exec')
        _code[path] = c
    return c


def _import(name, globals=None, locals=None, fromlist=(), level=0):
    if level == 0:
        top = name.split('.')[0]
        if top in STUBS or name in STUBS:
            if fromlist:
                m = STUBS.get(name)
                if m is None:
                    raise ModuleNotFoundError(f"No module named '{name}'",
                                              name=name)
                return m
            return STUBS.get(top)
        if top in shims.SHIMS:
            if not fromlist:
                return shims.SHIMS[top]
            m = shims.SHIMS.get(name)
            if m is not None:
                return m
            return builtins.__import__(name, globals, locals, fromlist, level)
    return builtins.__import__(name, globals, locals, fromlist, level)


def make_builtins():
    d = dict(builtins.__dict__)
    d.update(shims.BUILTIN_OVERRIDES)
    d['__import__'] = _import
    return d


class Loader(importlib.abc.Loader):
    def __init__(self, path, is_pkg):
        self.path = path
        self.is_pkg = is_pkg

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        module.__dict__['__builtins__'] = make_builtins()
        module.__file__ = self.path
        exec(compiled(self.path), module.__dict__)

    def get_resource_reader(self, name):
        return None


class Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, fullname, path=None, target=None):
        if fullname != ROOT and not fullname.startswith(ROOT + '.'):
            return None
        base = os.path.join(REPO, *fullname.split('.'))
        if os.path.isfile(os.path.join(base, '__init__.py')):
            f = os.path.join(base, '__init__.py')
            spec = importlib.machinery.ModuleSpec(
                fullname, Loader(f, True), origin=f, is_package=True)
            spec.submodule_search_locations = [base]
            return spec
        if os.path.isfile(base + '.py'):
            return importlib.machinery.ModuleSpec(
                fullname, Loader(base + '.py', False), origin=base + '.py')
        return None


_finder = Finder()


def install():
    if _finder not in sys.meta_path:
        sys.meta_path.insert(0, _finder)


def reset():
    """forget the loaded modules and stubs"""
    for k in [k for k in sys.modules if k == ROOT or k.startswith(ROOT + '.')]:
        del sys.modules[k]
    STUBS.clear()
    shims.fresh()


def load(name):
    return importlib.import_module(name)


# ---------------------------------------------------------------------------
# which functions of /repo were executed

class Coverage:
    TOOL = 3

    def __init__(self):
        self.seen = set()
        self.on = False

    def start(self):
        if self.on:
            return
        mon = sys.monitoring
        try:
            mon.use_tool_id(self.TOOL, 'symex')
        except ValueError:
            return
        mon.register_callback(self.TOOL, mon.events.PY_START, self._cb)
        mon.set_events(self.TOOL, mon.events.PY_START)
        self.on = True

    def _cb(self, code, off):
        f = code.co_filename
        if f.startswith(REPO + '/'):
            q = code.co_qualname
            if q != '<module>' and code.co_flags & 1:   # no class bodies
                self.seen.add(f[len(REPO) + 1:] + ':' + q)
        return sys.monitoring.DISABLE
