"""Loads the repository's current source for symbolic execution.

Every module file is parsed, calls of a few builtins are redirected to
versions that accept symbolic values, and the result is executed with an
import function that hands out the numpy/scipy/GDAL/... shims."""
import ast
import builtins
import os
import sys
import types

import numpy as np

from . import REPO
from . import arr as A
from . import vals as V
from . import sstr
from .core import Unsupported
from .vals import SBool, SFlt, SInt, SVal, is_sym

PATHS = ['', 'utilities', 'topographic']
CASTS = set('''float64 float32 float16 int64 int32 int16 int8 uint8 uint16
uint32 uint64 bool_ float_ int_ double single intc intp'''.split())
CALLS = set('''int float range min max abs round str isinstance type repr
print'''.split())


class Rewrite(ast.NodeTransformer):
    def __init__(self, bound):
        self.bound = bound

    def visit_Call(self, n):
        self.generic_visit(n)
        f = n.func
        if isinstance(f, ast.Name) and f.id in CALLS and \
                f.id not in self.bound:
            n.func = ast.copy_location(
                ast.Name('__sx_%s__' % f.id, ast.Load()), f)
        elif isinstance(f, ast.Attribute) and f.attr in CASTS and n.args:
            n.args = [f] + n.args
            n.func = ast.copy_location(
                ast.Name('__sx_npcast__', ast.Load()), f)
        elif isinstance(f, ast.Attribute) and f.attr == 'format' and \
                isinstance(f.value, ast.Constant) and \
                isinstance(f.value.value, str):
            n.args = [f.value] + n.args
            n.func = ast.copy_location(
                ast.Name('__sx_strformat__', ast.Load()), f)
        elif isinstance(f, ast.Attribute) and f.attr == 'join' and \
                isinstance(f.value, ast.Constant) and \
                isinstance(f.value.value, str) and len(n.args) == 1:
            n.args = [f.value] + n.args
            n.func = ast.copy_location(
                ast.Name('__sx_join__', ast.Load()), f)
        if isinstance(f, ast.Name) and f.id in ('map', 'filter') and n.args:
            n.args[0] = self.ref(n.args[0])
        for k in n.keywords:
            if k.arg == 'key':
                k.value = self.ref(k.value)
        return n

    def ref(self, a):
        if isinstance(a, ast.Name) and a.id in CALLS - {'type', 'range'} and \
                a.id not in self.bound:
            return ast.copy_location(
                ast.Name('__sx_%s__' % a.id, ast.Load()), a)
        return a

    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Mod) and isinstance(
                n.left, ast.Constant) and isinstance(n.left.value, str):
            return ast.copy_location(ast.Call(
                ast.Name('__sx_strmod__', ast.Load()), [n.left, n.right], []),
                n)
        return n

    def visit_JoinedStr(self, n):
        self.generic_visit(n)
        args = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                args.append(v)
            elif isinstance(v, ast.FormattedValue):
                spec = v.format_spec or ast.Constant('')
                args.append(ast.Tuple(
                    [v.value, ast.Constant(v.conversion), spec],
                    ast.Load()))
            else:
                args.append(v)
        return ast.copy_location(ast.Call(
            ast.Name('__sx_fstr__', ast.Load()), args, []), n)


def bound_names(tree):
    s = set()
    for n in ast.walk(tree):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            s.add(n.id)
        elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            s.add(n.name)
        elif isinstance(n, ast.arg):
            s.add(n.arg)
        elif isinstance(n, ast.alias):
            s.add((n.asname or n.name).split('.')[0])
    return s


_CODE = {}


def compile_file(path):
    if path not in _CODE:
        with open(path) as f:
            src = f.read()
        tree = ast.parse(src, path)
        tree = Rewrite(bound_names(tree)).visit(tree)
        ast.fix_missing_locations(tree)
        _CODE[path] = compile(tree, path, 'exec')
    return _CODE[path]


# -- builtins ---------------------------------------------------------------
def scal(x):
    if isinstance(x, np.ndarray) and x.size == 1 and x.dtype is not None:
        return A.plain(x).reshape(-1)[0] if isinstance(x, A.SArr) else x
    return x


def sx_int(x=0, *a):
    if isinstance(x, A.SArr):
        if x.size != 1:
            raise TypeError('only length-1 arrays can be converted to Python '
                            'scalars')
        x = x._scalar()
    if isinstance(x, sstr.SStr):
        raise Unsupported('int of a symbolic string')
    if is_sym(x):
        return V.to_int(x)
    return int(x, *a)


def sx_float(x=0.0):
    if isinstance(x, A.SArr):
        x = x._scalar()
    if isinstance(x, sstr.SStr):
        raise Unsupported('float of a symbolic string')
    if is_sym(x):
        f = V.to_flt(x)
        return SFlt(f.v, f.n, True)
    return float(x)


def sx_range(*a):
    return range(*[int(x) if isinstance(x, SVal) and not isinstance(x, SFlt)
                   else x for x in a])


def _minmax(fn, py):
    def f(*a, **k):
        if len(a) == 1 and not k:
            x = a[0]
            if isinstance(x, (A.MaskedSel,)):
                x = x.materialize()
            items = list(x)
        elif k and (set(k) != {'default'}):
            return py(*a, **k)
        elif k:
            items = list(a[0])
            if not items:
                return k['default']
        else:
            items = list(a)
        if items and any(is_sym(e) for e in items) and all(
                V.is_num(e) and np.ndim(e) == 0 for e in items):
            return fn(items)
        return py(items) if items else py(*a, **k)
    return f


sx_min = _minmax(V.py_min, min)
sx_max = _minmax(V.py_max, max)


def sx_abs(x):
    return V.absolute(x) if is_sym(x) else abs(x)


def sx_round(x, nd=None):
    if isinstance(x, A.SArr) and x.ndim == 0:
        x = x._scalar()
    if is_sym(x):
        return V.py_round(x, nd)
    return round(x, nd) if nd is not None else round(x)


def pytype(x):
    if isinstance(x, SBool):
        return bool
    if isinstance(x, SInt):
        return int if x.py else np.int64
    if isinstance(x, SFlt):
        return float if x.py else np.float64
    if isinstance(x, sstr.SStr):
        return str
    return type(x)


def sx_isinstance(x, t):
    if isinstance(x, (SVal, sstr.SStr)):
        return issubclass(pytype(x), t)
    if isinstance(x, np.float64) and t is float:
        return True
    return isinstance(x, t)


def sx_type(x, *a):
    if a:
        return type(x, *a)
    if isinstance(x, A.SArr):
        return np.ndarray
    return pytype(x)


def sx_npcast(f, *a, **k):
    if isinstance(f, type) and issubclass(f, np.generic) and a and (
            is_sym(a[0]) or isinstance(a[0], (A.SArr, A.MaskedSel))):
        x = a[0]
        dt = np.dtype(f)
        if isinstance(x, A.MaskedSel):
            return x.astype(dt)
        if isinstance(x, A.SArr):
            if x.ndim:
                return x.astype(dt)
            x = x._scalar()
        return A.cast_elem(x, dt)
    return f(*a, **k)


def sx_print(*a, **k):
    pass


class World:
    """Modules and fakes of one execution path."""

    def __init__(self, stubs):
        self.mods = {}
        self.stubs = stubs
        b = dict(builtins.__dict__)
        b['__import__'] = self.imp
        b.update(__sx_int__=sx_int, __sx_float__=sx_float, __sx_range__=sx_range,
                 __sx_min__=sx_min, __sx_max__=sx_max, __sx_abs__=sx_abs,
                 __sx_round__=sx_round, __sx_str__=sstr.sx_str,
                 __sx_isinstance__=sx_isinstance, __sx_type__=sx_type,
                 __sx_repr__=sstr.sx_repr, __sx_print__=sx_print,
                 __sx_npcast__=sx_npcast, __sx_fstr__=sstr.sx_fstr,
                 __sx_strformat__=sstr.sx_strformat,
                 __sx_join__=sstr.sx_join,
                 __sx_strmod__=sstr.sx_strmod)
        self.builtins = b
        self.files = set()

    def find(self, name):
        rel = name.replace('.', '/')
        for d in PATHS:
            base = os.path.join(REPO, d, rel)
            if os.path.isfile(base + '.py'):
                return base + '.py', False
            if os.path.isdir(base) and os.path.isfile(
                    os.path.join(base, '__init__.py')):
                return os.path.join(base, '__init__.py'), True
        return None, None

    def load(self, name):
        if name in self.mods:
            return self.mods[name]
        path, pkg = self.find(name)
        if path is None:
            raise ModuleNotFoundError('No module named %r' % name, name=name)
        if '.' in name:
            parent = self.load(name.rpartition('.')[0])
        m = types.ModuleType(name)
        m.__file__ = path
        m.__dict__['__builtins__'] = self.builtins
        if pkg:
            m.__path__ = [os.path.dirname(path)]
            m.__package__ = name
        else:
            m.__package__ = name.rpartition('.')[0]
        self.mods[name] = m
        self.files.add(path)
        try:
            exec(compile_file(path), m.__dict__)
        except BaseException:
            self.mods.pop(name, None)
            raise
        if '.' in name:
            setattr(parent, name.rpartition('.')[2], m)
        return m

    def main(self, name):
        """run a script"""
        path, _ = self.find(name)
        if path is None:
            raise ModuleNotFoundError('No module named %r' % name, name=name)
        m = types.ModuleType('__main__')
        m.__file__ = path
        m.__package__ = None
        m.__dict__['__builtins__'] = self.builtins
        self.files.add(path)
        exec(compile_file(path), m.__dict__)
        return vars(m)

    def imp(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = (globals or {}).get('__package__', '')
            for _ in range(level - 1):
                pkg = pkg.rpartition('.')[0]
            name = pkg + ('.' + name if name else '')
        root = name.split('.')[0]
        if root in self.stubs:
            return self.imp_stub(name, fromlist)
        if self.find(root)[0] is not None:
            m = self.load(name) if not fromlist or True else None
            if fromlist:
                for f in fromlist:
                    if f != '*' and not hasattr(m, f) and \
                            hasattr(m, '__path__'):
                        sub = name + '.' + f
                        if self.find(sub)[0] is not None:
                            self.load(sub)
                return m
            return self.load(root)
        return builtins.__import__(name, globals, locals, fromlist, 0)

    def imp_stub(self, name, fromlist):
        m = self.stubs[name.split('.')[0]]
        if m is None:
            raise ModuleNotFoundError('No module named %r' % name, name=name)
        top = m
        for p in name.split('.')[1:]:
            m = getattr(m, p)
        return m if fromlist else top
