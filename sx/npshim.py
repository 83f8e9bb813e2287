"""The `numpy` module the repository sees during symbolic execution."""
import types
import math

import numpy as np
import z3

from . import vals as V
from . import arr as A
from .arr import (SArr, MaskedSel, MaskIdx, make, obj, plain, wrap, adt,
                  norm, from_list, cast_elem, concrete, dt_of, reduce_,
                  apply_ufunc, guess)
from .core import Unsupported, ctx, Steer
from .vals import SBool, SInt, SFlt, SVal, is_sym, ite, scalar_binop, \
    scalar_cmp


def has_sym(x, depth=0):
    """does x contain SArr / symbolic values?"""
    if isinstance(x, (SArr, SVal, MaskedSel, MaskIdx)):
        return True
    if isinstance(x, (list, tuple)) and depth < 4:
        return any(has_sym(e, depth + 1) for e in x)
    if isinstance(x, np.ndarray):
        return x.dtype == object and not isinstance(x, np.ma.MaskedArray)
    if type(x).__module__.startswith('pandas'):
        return getattr(x, 'dtype', None) == object
    if isinstance(x, dict) and depth < 2:
        return any(has_sym(e, depth + 1) for e in x.values())
    return hasattr(x, '_sx_sym')


def really_sym(x, depth=0):
    if isinstance(x, SVal):
        return True
    if isinstance(x, SArr):
        return concrete(x) is None
    if isinstance(x, MaskedSel):
        return True
    if isinstance(x, MaskIdx):
        return True
    if isinstance(x, (list, tuple)) and depth < 4:
        return any(really_sym(e, depth + 1) for e in x)
    if isinstance(x, np.ndarray) and x.dtype == object:
        return any(is_sym(e) for e in x.ravel())
    return hasattr(x, '_sx_sym')


def to_real(x, depth=0):
    """concrete SArr -> real array (recursively)"""
    if isinstance(x, SArr):
        return concrete(x)
    if isinstance(x, tuple) and not hasattr(x, '_fields'):
        return tuple(to_real(e) for e in x)
    if isinstance(x, list):
        return [to_real(e) for e in x]
    return x


def to_obj(x):
    if isinstance(x, (SArr,)):
        return plain(x)
    if isinstance(x, (MaskedSel, )):
        return plain(x.materialize())
    if isinstance(x, MaskIdx):
        return tuple(plain(i) for i in x.materialize())
    if isinstance(x, (list, tuple)):
        return type(x)(to_obj(e) for e in x) if not hasattr(x, '_fields') \
            else x
    return x


HANDLERS = {}


def h(*names):
    def d(f):
        for n in names:
            HANDLERS[n] = f
        return f
    return d


def dtypes_in(x, out, depth=0):
    if isinstance(x, (SArr, MaskedSel)):
        out.append(adt(x))
    elif isinstance(x, np.ndarray):
        out.append(x.dtype)
    elif isinstance(x, SVal):
        out.append(A.elem_dt(x))
    elif isinstance(x, (list, tuple)) and depth < 3:
        for e in x:
            dtypes_in(e, out, depth + 1)


# functions that only move elements around
STRUCT = set('''transpose reshape ravel flipud fliplr flip rot90 swapaxes
moveaxis rollaxis squeeze expand_dims broadcast_to broadcast_arrays
atleast_1d atleast_2d atleast_3d concatenate stack vstack hstack dstack
column_stack row_stack split array_split hsplit vsplit roll tile repeat
diag diagonal diagflat tril triu pad delete insert append resize
kron_ block'''.split())

MUT = set('copyto fill_diagonal put place putmask'.split())


def struct(func, args, kw):
    ds = []
    for a in args:
        dtypes_in(a, ds)
    for a in kw.values():
        dtypes_in(a, ds)
    dt = None
    for d in ds:
        if dt is None:
            dt = d
        elif dt != d:
            dt = A._OBJ if A._OBJ in (dt, d) else np.promote_types(dt, d)
    name = func.__name__
    if name in ('append', 'concatenate', 'hstack', 'insert'):
        # lists of plain numbers take part in the promotion
        for a in args:
            if isinstance(a, (list, tuple)) and not any(
                    isinstance(e, (np.ndarray, SVal)) for e in a) and a:
                try:
                    d = np.asarray(a).dtype
                    if d.kind in 'biuf':
                        dt = np.promote_types(dt, d)
                except Exception:
                    pass
    oargs = [objlist(a, i, name) for i, a in enumerate(args)]
    okw = {k: to_obj(v) for k, v in kw.items()}
    r = func(*oargs, **okw)
    return rewrap(r, dt)


def objlist(a, i, name):
    if isinstance(a, (list, tuple)) and i == 0 and name in (
            'concatenate', 'stack', 'vstack', 'hstack', 'dstack',
            'column_stack', 'row_stack', 'block'):
        return [obj(e) if not isinstance(e, (list, tuple)) else
                plain(from_list(e)) for e in a]
    if isinstance(a, list) and has_sym(a):
        return plain(from_list(a))
    return to_obj(a)


def rewrap(r, dt):
    if isinstance(r, np.ndarray):
        if r.dtype == object:
            if dt is None:
                return guess(r)
            out = r.view(SArr) if not isinstance(r, SArr) else r
            out._dt = dt
            if dt.kind in 'fiub':
                # freshly mixed-in plain numbers (pad, tril, append ...)
                flat_bad = [e for e in r.ravel()
                            if not is_sym(e) and not isinstance(
                                e, np.generic)]
                if flat_bad:
                    p = plain(out)
                    for ix in np.ndindex(*p.shape):
                        e = p[ix]
                        if not is_sym(e):
                            p[ix] = cast_elem(norm(e), dt)
            return out
        return wrap(r)
    if isinstance(r, (list, tuple)):
        return type(r)(rewrap(e, dt) for e in r)
    return r


def dispatch(func, args, kw):
    name = getattr(func, '__name__', str(func))
    for a in list(args) + list(kw.values()):
        if hasattr(a, '_sx_sym') or (isinstance(a, (list, tuple)) and any(
                hasattr(e, '_sx_sym') for e in a)):
            from . import mashim
            return mashim.dispatch(func, args, kw)
    if name in STRUCT:
        return struct(func, args, kw)
    if name in MUT:
        return HANDLERS[name](*args, **kw)
    if name in ALWAYS:
        return HANDLERS[name](*args, **kw)
    if not really_sym(list(args)) and not really_sym(list(kw.values())):
        ra = [to_real(a) for a in args]
        rk = {k: to_real(v) for k, v in kw.items() if k != 'out'}
        if kw.get('out') is not None:
            if name in HANDLERS:
                return HANDLERS[name](*args, **kw)
            raise Unsupported('out= in ' + name)
        return wrap(func(*ra, **rk))
    if name in HANDLERS:
        return HANDLERS[name](*args, **kw)
    raise Unsupported('numpy function %s on symbolic arguments' % name)


ALWAYS = {'shape', 'ndim', 'size', 'where', 'array', 'copy', 'asarray'}


@h('shape')
def shape(a):
    return A._shape(a) if not isinstance(a, MaskedSel) else \
        a.materialize().shape


@h('ndim')
def ndim(a):
    return len(shape(a))


@h('size')
def size(a, axis=None):
    s = shape(a)
    return int(np.prod(s, dtype=int)) if axis is None else s[axis]


@h('where')
def where(cond, *ab, **kw):
    if isinstance(cond, (MaskedSel, MaskIdx)):
        cond = cond.materialize()
    if not ab and not kw:
        if isinstance(cond, SBool):
            cond = from_list([cond]).reshape(())
        if isinstance(cond, (list, tuple)):
            cond = from_list(cond)
        if isinstance(cond, SArr):
            m = cond if cond._dt.kind == 'b' else (cond != 0)
            c = concrete(m)
            if c is None:
                return MaskIdx(m)
            return tuple(wrap(i) for i in np.nonzero(c))
        return wrap(np.where(to_real(cond)))
    a, b = (list(ab) + [kw.get('x'), kw.get('y')])[:2] if len(ab) < 2 \
        else ab
    oc, oa, ob = obj(cond), obj(a), obj(b)
    dt = A.result_dt('where', (a, b))
    bc = np.broadcast_arrays(oc, oa, ob)
    res = np.empty(bc[0].shape, dtype=object)
    rf = res.reshape(-1)
    f = [np.asarray(x).reshape(-1) for x in bc]
    for k in range(rf.size):
        c = f[0][k]
        x, y = f[1][k], f[2][k]
        if dt.kind in 'biuf':
            x, y = cast_elem(x, dt), cast_elem(y, dt)
        rf[k] = norm(ite(c, x, y))
    return make(res, dt)


@h('nonzero')
def nonzero(a):
    return from_any(a).nonzero()


@h('flatnonzero')
def flatnonzero(a):
    return from_any(a).ravel().nonzero()[0]


@h('argwhere')
def argwhere(a):
    t = from_any(a).nonzero()
    t = t.materialize() if isinstance(t, MaskIdx) else t
    return wrap(np.transpose([concrete(i) for i in t]))


@h('count_nonzero')
def count_nonzero(a, axis=None, keepdims=False):
    return HANDLERS['sum'](from_any(a).astype(bool), axis=axis)


def from_any(a):
    if isinstance(a, SArr):
        return a
    if isinstance(a, (MaskedSel, MaskIdx)):
        return a.materialize()
    if isinstance(a, np.ndarray):
        return wrap(a)
    if isinstance(a, (list, tuple, range)):
        return from_list(a)
    if hasattr(a, '__array__') and not is_sym(a):
        return wrap(np.asarray(a.__array__()))
    return from_list(a)


@h('array')
def array(x, dtype=None, copy=True, order='K', subok=False, ndmin=0,
          like=None):
    if hasattr(x, '_sx_sym'):
        x = x.data_arr
    if isinstance(x, (map, filter, zip)) or hasattr(x, '__next__'):
        raise Unsupported('array of an iterator')
    if isinstance(x, SArr):
        r = x.astype(dtype) if dtype is not None else x.copy()
    elif isinstance(x, (MaskedSel, MaskIdx)):
        m = x.materialize()
        return array(m, dtype)
    elif is_sym(x):
        r = from_list(x, dt_of(dtype) if dtype is not None else None)
    elif type(x).__module__.startswith('pandas'):
        r = from_list(list(x), dt_of(dtype) if dtype is not None else None)
    elif has_sym(x) or isinstance(x, (list, tuple)) and has_sym(x):
        r = from_list(x, dt_of(dtype) if dtype is not None else None)
    else:
        r = wrap(np.array(x, dtype=dtype))
    if ndmin and r.ndim < ndmin:
        r = r.reshape((1,) * (ndmin - r.ndim) + r.shape)
    return r


@h('asarray', 'asanyarray', 'ascontiguousarray', 'asfarray', 'require')
def asarray(x, dtype=None, *a, **k):
    if isinstance(x, SArr):
        if dtype is None or dt_of(dtype) == x._dt:
            return x
        return x.astype(dtype)
    if isinstance(x, MaskedSel):
        return asarray(x.materialize(), dtype)
    return array(x, dtype)


@h('copy')
def copy_(a, order='K', subok=False):
    return array(a)


def ints(s):
    if isinstance(s, (tuple, list)):
        return tuple(int(e) for e in s)
    if isinstance(s, SArr):
        return tuple(int(e) for e in plain(s).ravel())
    return int(s)


def uninit(dt):
    if dt.kind == 'f':
        c = ctx()
        return SFlt(c.fresh('uninit', z3.RealSort()))
    return cast_elem(0, dt) if dt.kind in 'iub' else None


def full_(shape_, v, dtype=None):
    shape_ = ints(shape_)
    if dtype is None:
        dt = A.elem_dt(V.unwrap0(v))
        if isinstance(v, np.ndarray) and v.ndim:
            r = full_(shape_, 0, v.dtype)
            r[...] = v
            return r
    else:
        dt = dt_of(dtype)
    o = np.empty(shape_, dtype=object)
    if isinstance(v, (np.ndarray, list, tuple)) and np.ndim(v):
        r = make(o, dt)
        r[...] = v
        return r
    o.fill(cast_elem(norm(v), dt, True))
    return make(o, dt)


def zeros(shape, dtype=float, order='C', **k):
    return full_(shape, 0, dtype if dtype is not None else float)


def ones(shape, dtype=None, order='C', **k):
    return full_(shape, 1, dtype if dtype is not None else float)


def empty(shape, dtype=float, order='C', **k):
    dt = dt_of(dtype)
    o = np.empty(ints(shape), dtype=object)
    o.fill(uninit(dt))
    return make(o, dt)


def full(shape, fill_value, dtype=None, order='C', **k):
    return full_(shape, fill_value, dtype)


def like(v):
    def f(a, dtype=None, order='K', subok=True, shape=None):
        a = from_any(a)
        dt = dt_of(dtype) if dtype is not None else a._dt
        s = a.shape if shape is None else ints(shape)
        if v is None:
            return empty(s, dt)
        return full_(s, v, dt)
    return f


@h('full_like')
def full_like(a, fill_value, dtype=None, order='K', subok=True, shape=None):
    a = from_any(a)
    return full_(a.shape if shape is None else shape, fill_value,
                 dt_of(dtype) if dtype is not None else a._dt)


HANDLERS['zeros_like'] = like(0)
HANDLERS['ones_like'] = like(1)
HANDLERS['empty_like'] = like(None)
ALWAYS |= {'full_like', 'zeros_like', 'ones_like', 'empty_like',
           'asanyarray', 'ascontiguousarray'}


def arange(*args, dtype=None, **k):
    if 'start' in k or 'stop' in k or 'step' in k:
        args = (k.get('start', 0), k.get('stop'), k.get('step', 1))
        if args[1] is None:
            args = (0, args[0], args[2])
    args = [V.unwrap0(a) for a in args]
    if not any(is_sym(a) for a in args):
        return wrap(np.arange(*args, dtype=dtype))
    if all(V.is_intlike(a) for a in args):
        return wrap(np.arange(*[int(a) for a in args], dtype=dtype))
    start, stop, step = {1: lambda: (0, args[0], 1),
                         2: lambda: (args[0], args[1], 1),
                         3: lambda: tuple(args)}[len(args)]()
    n = V.to_int(V.ceil_(scalar_binop(
        'div', scalar_binop('sub', stop, start), step)))
    n = max(0, int(n))
    return from_list([scalar_binop('add', start, scalar_binop(
        'mul', step, i)) for i in range(n)] if n else [],
        dt_of(dtype) if dtype else np.dtype('float64'))


def linspace(start, stop, num=50, endpoint=True, retstep=False, dtype=None,
             axis=0):
    if not (is_sym(start) or is_sym(stop) or is_sym(num)):
        r = np.linspace(start, stop, num, endpoint, retstep, dtype)
        return wrap(r)
    n = int(num)
    div = n - 1 if endpoint else n
    w = scalar_binop('sub', stop, start)
    out = []
    for i in range(n):
        out.append(scalar_binop('add', start, scalar_binop(
            'div', scalar_binop('mul', w, np.float64(i)),
            np.float64(max(div, 1)))))
    r = from_list(out, dt_of(dtype) if dtype else np.dtype('float64'))
    if retstep:
        return r, scalar_binop('div', w, np.float64(div))
    return r


# -- reductions ---------------------------------------------------------
def _dtf(a):
    d = adt(a) if isinstance(a, (np.ndarray, MaskedSel)) else \
        from_any(a)._dt
    return d


def red(fn, isbool=False, isfloat=False, dtf=None):
    def f(a, axis=None, out=None, keepdims=False, dtype=None, initial=None,
          where=True, **k):
        if keepdims is np._NoValue:
            keepdims = False
        if isinstance(where, type(np._NoValue)):
            where = True
        if initial is np._NoValue:
            initial = None
        a = from_any(a)
        if isbool:
            a = a.astype(bool)
        d = np.dtype(bool) if isbool else (
            np.dtype('float64') if isfloat and a._dt.kind != 'f' else a._dt)
        if dtf is not None:
            d = dtf(a._dt)
        r = reduce_(fn, a, axis, bool(keepdims), initial, d, where)
        if out is not None:
            out[...] = r
            return out
        return r
    return f


def sum_f(lst):
    return A.sum_fn(lst) if lst else np.float64(0.0)


def mean_f(lst):
    if not lst:
        return np.float64('nan')
    return scalar_binop('div', V.to_flt(A.sum_fn(lst))
                        if is_sym(A.sum_fn(lst)) else
                        np.float64(A.sum_fn(lst)), np.float64(len(lst)))


def any_f(lst):
    e = False
    for x in lst:
        e = V.zor(e, V.bexpr(x))
    return V.norm_bool(e)


def all_f(lst):
    e = True
    for x in lst:
        e = V.zand(e, V.bexpr(x))
    return V.norm_bool(e)


def nanfold(kind):
    def f(lst):
        if not lst:
            raise ValueError('zero-size array to reduction operation')
        return V.extreme(kind, lst, True)
    return f


def nansum_f(lst):
    return sum_f([ite(V.isnan_(x), np.float64(0.0), V.nz(x)) for x in lst])


def nanmean_f(lst):
    s = nansum_f(lst)
    n = sum_f([ite(V.isnan_(x), np.int64(0), np.int64(1)) for x in lst])
    if not lst:
        return np.float64('nan')
    if is_sym(n):
        if ctx().decide(V.iexpr(n) == 0):
            return np.float64('nan')
    elif n == 0:
        return np.float64('nan')
    return scalar_binop('div', s, n)


def prod_f(lst):
    r = np.int64(1)
    for x in lst:
        r = scalar_binop('mul', r, x)
    return r


def argbest(op):
    def f(lst):
        if not lst:
            raise ValueError('attempt to get argmax of an empty sequence')
        # numpy: first nan wins, else first best
        r, bi = lst[0], np.int64(0)
        for i, x in enumerate(lst[1:], 1):
            better = V.norm_bool(V.zand(
                V.znot(V.bexpr(V.isnan_(r))),
                V.zor(V.bexpr(V.isnan_(x)),
                      V.bexpr(scalar_cmp(op, V.nz(x), V.nz(r))))))
            bi = ite(better, np.int64(i), bi)
            r = ite(better, x, r)
        return bi
    return f


I64 = np.dtype('int64')
for _n in ('sum',):
    HANDLERS[_n] = red(sum_f, dtf=lambda d: I64 if d.kind == 'b' else d)
HANDLERS['nansum'] = red(nansum_f)
HANDLERS['mean'] = red(mean_f, isfloat=True)
HANDLERS['average'] = lambda a, axis=None, weights=None, **k: \
    HANDLERS['mean'](a, axis) if weights is None else _wavg(a, axis, weights)
HANDLERS['nanmean'] = red(nanmean_f, isfloat=True)
for _n in ('max', 'amax'):
    HANDLERS[_n] = red(A.fold('maximum'))
for _n in ('min', 'amin'):
    HANDLERS[_n] = red(A.fold('minimum'))
HANDLERS['nanmax'] = red(nanfold('max'))
HANDLERS['nanmin'] = red(nanfold('min'))
HANDLERS['prod'] = red(prod_f)
HANDLERS['any'] = red(any_f, True)
HANDLERS['all'] = red(all_f, True)
HANDLERS['argmax'] = red(argbest('gt'), dtf=lambda d: I64)
HANDLERS['argmin'] = red(argbest('lt'), dtf=lambda d: I64)


def _wavg(a, axis, w):
    a, w = from_any(a), from_any(w)
    if w.shape != a.shape:
        raise Unsupported('average with broadcast weights')
    return HANDLERS['sum'](a * w, axis) / HANDLERS['sum'](w, axis)


@h('ptp')
def ptp(a, axis=None, **k):
    return HANDLERS['max'](a, axis) - HANDLERS['min'](a, axis)


@h('cumsum')
def cumsum(a, axis=None, dtype=None, out=None):
    a = from_any(a)
    if axis is None:
        a, axis = a.ravel(), 0
    return A.ufunc_dispatch(np.add, 'accumulate', (a,), {'axis': axis})


@h('around', 'round', 'round_')
def around(a, decimals=0, out=None):
    if is_sym(a):
        return V.around_(a, int(decimals))
    a = from_any(a)
    o = np.empty(a.shape, dtype=object)
    of, af = o.reshape(-1), plain(a).reshape(-1)
    for k in range(of.size):
        of[k] = norm(V.around_(af[k], int(decimals)))
    if o.ndim == 0:
        return of[0]
    return make(o, a._dt)


@h('fix')
def fix(a, out=None):
    return apply_ufunc('trunc', (a,))


@h('clip')
def clip(a, a_min=None, a_max=None, out=None, **k):
    a_min = k.get('min', a_min)
    a_max = k.get('max', a_max)
    r = a
    if a_min is not None:
        r = apply_ufunc('maximum', (r, a_min))
    if a_max is not None:
        r = apply_ufunc('minimum', (r, a_max))
    if out is not None:
        out[...] = r
        return out
    return r


@h('diff')
def diff(a, n=1, axis=-1, prepend=np._NoValue, append=np._NoValue):
    a = from_any(a)
    if a.ndim == 0:
        raise ValueError('diff requires input that is at least one '
                         'dimensional')
    for v, first in ((prepend, True), (append, False)):
        if v is not np._NoValue:
            v = from_any(v)
            if v.ndim == 0:
                s = list(a.shape)
                s[axis] = 1
                v = full_(tuple(s), v.item() if False else plain(v)[()])
            a = struct(np.concatenate, ([v, a] if first else [a, v],),
                       {'axis': axis})
    for _ in range(n):
        x = np.moveaxis(plain(a), axis, 0)
        y = apply_ufunc('subtract', (make(x[1:], a._dt),
                                     make(x[:-1], a._dt)))
        a = make(np.moveaxis(plain(y), 0, axis), y._dt)
    return a


@h('isclose')
def isclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
    d = apply_ufunc('absolute', (apply_ufunc('subtract', (a, b)),))
    t = apply_ufunc('add', (np.float64(atol), apply_ufunc(
        'multiply', (np.float64(rtol), apply_ufunc('absolute', (b,))))))
    r = apply_ufunc('less_equal', (d, t))
    if equal_nan:
        r = apply_ufunc('logical_or', (r, apply_ufunc('logical_and', (
            apply_ufunc('isnan', (a,)), apply_ufunc('isnan', (b,))))))
    return r


@h('allclose')
def allclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
    return bool(HANDLERS['all'](isclose(a, b, rtol, atol, equal_nan)))


@h('array_equal')
def array_equal(a, b, equal_nan=False):
    a, b = from_any(a), from_any(b)
    if a.shape != b.shape:
        return False
    return bool(HANDLERS['all'](a == b))


@h('nan_to_num')
def nan_to_num(x, copy=True, nan=0.0, posinf=None, neginf=None):
    x0 = x
    r = where(apply_ufunc('isnan', (x,)), np.float64(nan), x)
    if not copy and isinstance(x0, SArr):
        x0[...] = r
        return x0
    return r


@h('copyto')
def copyto(dst, src, casting='same_kind', where=True):
    if where is True:
        dst[...] = src
    else:
        dst[...] = HANDLERS['where'](where, src, dst)


@h('putmask', 'place')
def putmask(a, mask, values):
    a[...] = HANDLERS['where'](mask, values, a)


@h('put')
def put(a, ind, v, mode='raise'):
    plain(a).reshape(-1)
    f = np.ravel(plain(a))
    if not np.shares_memory(f, plain(a)):
        raise Unsupported('put on a non-contiguous array')
    make(f, a._dt)[ind] = v


@h('fill_diagonal')
def fill_diagonal(a, val, wrap=False):
    for i in range(min(a.shape)):
        a[(i,) * a.ndim] = val


@h('select')
def select(condlist, choicelist, default=0):
    r = default
    for c, v in reversed(list(zip(condlist, choicelist))):
        r = where(c, v, r)
    return r


@h('piecewise')
def piecewise(x, condlist, funclist, *args, **kw):
    x = from_any(x)
    r = zeros(x.shape, x._dt)
    n = len(condlist)
    if isinstance(condlist, SArr) and condlist.ndim == x.ndim:
        condlist = [condlist]
        n = 1
    if len(funclist) == n + 1:
        f = funclist[-1]
        any_ = False
        v = f(x, *args, **kw) if callable(f) else f
        r = where(from_any(full_(x.shape, True, bool)), v, r)
    for c, f in zip(condlist, funclist):
        if callable(f):
            sel = x[c]
            y = f(sel, *args, **kw)
            r[c] = y
        else:
            r[c] = f
    return r


@h('compress')
def compress(cond, a, axis=None, out=None):
    c = from_any(cond)
    c = A.mask_concrete(c if c._dt.kind == 'b' else (c != 0))
    a = from_any(a)
    r = np.compress(c, plain(a), axis=axis)
    return make(r, a._dt)


@h('extract')
def extract(cond, a):
    return compress(from_any(cond).ravel(), from_any(a).ravel())


@h('take')
def take(a, idx, axis=None, out=None, mode='raise'):
    return from_any(a).take(idx, axis)


@h('take_along_axis')
def take_along_axis(a, idx, axis):
    a = from_any(a)
    i = from_any(idx)
    ci = concrete(i)
    if ci is None:
        ci = np.array([int(e) for e in plain(i).ravel()]).reshape(i.shape)
    return make(np.take_along_axis(plain(a), ci, axis), a._dt)


def _sorted(lst):
    # insertion sort through decisions
    out = []
    for x in lst:
        k = len(out)
        while k > 0 and bool(scalar_cmp('lt', x, out[k - 1])):
            k -= 1
        out.insert(k, x)
    return out


@h('sort')
def sort(a, axis=-1, kind=None, order=None):
    a = from_any(a)
    if axis is None:
        a, axis = a.ravel(), 0
    x = np.moveaxis(plain(a), axis, -1)
    o = np.empty(x.shape, dtype=object)
    of = o.reshape(-1, x.shape[-1]) if x.size else o
    xf = x.reshape(-1, x.shape[-1]) if x.size else x
    for k in range(of.shape[0] if x.size else 0):
        of[k] = _sorted(list(xf[k]))
    return make(np.moveaxis(o, -1, axis), a._dt)


@h('argsort')
def argsort(a, axis=-1, kind=None, order=None):
    a = from_any(a)
    if a.ndim != 1:
        raise Unsupported('argsort n-d')
    out = []
    x = plain(a)
    for i in range(len(x)):
        k = len(out)
        while k > 0 and bool(scalar_cmp('lt', x[i], x[out[k - 1]])):
            k -= 1
        out.insert(k, i)
    return wrap(np.array(out, dtype=int))


@h('unique')
def unique(a, return_index=False, return_inverse=False, return_counts=False,
           axis=None):
    if return_index or return_inverse or return_counts or axis is not None:
        raise Unsupported('unique with extra outputs')
    a = from_any(a)
    s = _sorted(list(plain(a).ravel()))
    out = []
    for x in s:
        if not out or not bool(scalar_cmp('eq', x, out[-1])):
            out.append(x)
    return from_list(out, a._dt) if out else zeros((0,), a._dt)


def _member(x, lst):
    e = False
    for y in lst:
        e = V.zor(e, V.bexpr(scalar_cmp('eq', x, y)))
    return V.norm_bool(e)


@h('isin', 'in1d')
def isin(a, test, assume_unique=False, invert=False, **k):
    a, t = from_any(a), list(plain(from_any(test)).ravel())
    o = np.empty(a.shape, dtype=object)
    of, af = o.reshape(-1), plain(a).reshape(-1)
    for k in range(of.size):
        m = _member(af[k], t)
        of[k] = norm(V.znot_b(m) if invert else m)
    return make(o, np.dtype(bool))


@h('intersect1d')
def intersect1d(a, b, assume_unique=False, return_indices=False):
    a, b = from_any(a).ravel(), from_any(b).ravel()
    r = [x for x in plain(unique(a)) if bool(_member(x, plain(b)))]
    return from_list(r, a._dt) if r else zeros((0,), a._dt)


@h('setdiff1d')
def setdiff1d(a, b, assume_unique=False):
    a, b = from_any(a).ravel(), from_any(b).ravel()
    r = [x for x in plain(unique(a)) if not bool(_member(x, plain(b)))]
    return from_list(r, a._dt) if r else zeros((0,), a._dt)


@h('union1d')
def union1d(a, b):
    return unique(struct(np.concatenate, ([from_any(a).ravel(),
                                           from_any(b).ravel()],), {}))


@h('searchsorted')
def searchsorted(a, v, side='left', sorter=None):
    a = from_any(a)
    op = 'lt' if side == 'left' else 'le'
    lst = list(plain(a))

    def one(x):
        r = np.int64(0)
        for y in lst:
            r = scalar_binop('add', r, V.ite(scalar_cmp(op, y, x),
                                             np.int64(1), np.int64(0)))
        return r
    if is_sym(v) or not isinstance(v, (np.ndarray, list, tuple)):
        return one(v)
    v = from_any(v)
    o = np.empty(v.shape, dtype=object)
    of, vf = o.reshape(-1), plain(v).reshape(-1)
    for k in range(of.size):
        of[k] = norm(one(vf[k]))
    return make(o, I64)


@h('digitize')
def digitize(x, bins, right=False):
    # increasing bins
    return searchsorted(bins, x, 'left' if right else 'right')


@h('interp')
def interp(x, xp, fp, left=None, right=None, period=None):
    xp, fp = list(plain(from_any(xp))), list(plain(from_any(fp)))
    if any(is_sym(e) for e in xp):
        raise Unsupported('interp with symbolic knots')

    def one(v):
        r = fp[-1] if right is None else right
        for i in range(len(xp) - 2, -1, -1):
            s = scalar_binop('div', scalar_binop('sub', fp[i + 1], fp[i]),
                             np.float64(xp[i + 1] - xp[i]))
            y = scalar_binop('add', fp[i], scalar_binop(
                'mul', s, scalar_binop('sub', v, xp[i])))
            r = ite(scalar_cmp('lt', v, xp[i + 1]), y, r)
        r = ite(scalar_cmp('lt', v, xp[0]),
                fp[0] if left is None else left, r)
        r = ite(scalar_cmp('eq', v, xp[-1]), fp[-1], r)
        return r
    if is_sym(x):
        return one(x)
    x = from_any(x)
    o = np.empty(x.shape, dtype=object)
    of, xf = o.reshape(-1), plain(x).reshape(-1)
    for k in range(of.size):
        of[k] = norm(one(xf[k]))
    return make(o, np.dtype('float64'))


@h('dot', 'matmul', 'inner')
def dot(a, b, out=None):
    a, b = from_any(a), from_any(b)
    if a.ndim == 0 or b.ndim == 0:
        return apply_ufunc('multiply', (a, b))
    return A.matmul(a, b)


@h('outer')
def outer(a, b, out=None):
    a, b = from_any(a).ravel(), from_any(b).ravel()
    return A.ufunc_dispatch(np.multiply, 'outer', (a, b), {})


@h('gradient')
def gradient(f, *varargs, axis=None, edge_order=1):
    raise Unsupported('gradient')


@h('convolve')
def convolve(a, v, mode='full'):
    a, v = list(plain(from_any(a))), list(plain(from_any(v)))
    n = len(a) + len(v) - 1
    full = []
    for k in range(n):
        t = [scalar_binop('mul', a[i], v[k - i]) for i in range(len(a))
             if 0 <= k - i < len(v)]
        full.append(sum_f(t))
    if mode == 'full':
        r = full
    elif mode == 'same':
        m = max(len(a), len(v))
        s = (n - m) // 2
        r = full[s:s + m]
    else:
        m = min(len(a), len(v))
        r = full[m - 1:n - m + 1]
    return from_list(r, np.dtype('float64'))


@h('apply_along_axis')
def apply_along_axis(func1d, axis, a, *args, **kw):
    a = from_any(a)
    x = np.moveaxis(plain(a), axis, -1)
    out = []
    for ix in np.ndindex(*x.shape[:-1]):
        out.append(func1d(make(x[ix].copy(), a._dt), *args, **kw))
    first = from_any(out[0])
    o = np.empty(x.shape[:-1] + first.shape, dtype=object)
    for ix, r in zip(np.ndindex(*x.shape[:-1]), out):
        o[ix] = obj(r) if first.ndim else norm(r)
    if first.ndim:
        o = np.moveaxis(o, -1, axis)
    return guess(o)


@h('iscomplexobj', 'iscomplex')
def iscomplexobj(x):
    return False


@h('isscalar')
def isscalar(x):
    return is_sym(x) or np.isscalar(x)


@h('result_type')
def result_type(*a):
    return np.result_type(*[adt(x) if has_sym(x) else x for x in a])


@h('can_cast')
def can_cast(a, b, casting='safe'):
    return np.can_cast(adt(a) if has_sym(a) else a, b, casting)


@h('may_share_memory', 'shares_memory')
def shares(a, b, *x):
    return np.shares_memory(plain(a), plain(b))


@h('float64', 'float32')
def _f(x):
    return x


# -- classes / objects -----------------------------------------------------
class Vectorize:
    def __init__(self, pyfunc, otypes=None, doc=None, excluded=None,
                 cache=False, signature=None):
        if signature or excluded:
            raise Unsupported('vectorize options')
        self.f = pyfunc
        self.otypes = otypes

    def __call__(self, *args, **kw):
        if kw:
            raise Unsupported('vectorize kwargs')
        bc = np.broadcast_arrays(*[obj(a) for a in args])
        shape_ = bc[0].shape
        f = [np.asarray(b).reshape(-1) for b in bc]
        o = np.empty(shape_, dtype=object)
        of = o.reshape(-1)
        for k in range(of.size):
            of[k] = norm(self.f(*[x[k] for x in f]))
        if shape_ == ():
            return of[0]
        if self.otypes:
            t = self.otypes[0]
            return make(o, np.dtype(object)).astype(dt_of(t))
        return guess(o)


class UfWrap:
    def __init__(self, u):
        self.u = u
        self.__name__ = u.__name__

    def _prep(self, args):
        return tuple(from_list(a) if isinstance(a, (list, tuple)) and
                     has_sym(a) and not isinstance(a, MaskIdx) else a
                     for a in args)

    def __call__(self, *args, **kw):
        args = self._prep(args)
        for a in args:
            if hasattr(a, '_sx_sym'):
                from . import mashim
                return mashim.ufunc(self.u, args, kw)
        if any(type(a).__module__.startswith('pandas') for a in args):
            args = tuple(from_any(a) if type(a).__module__.startswith(
                'pandas') else a for a in args)
        if has_sym(list(args)) or has_sym(kw.get('where')) or \
                kw.get('out') is not None:
            return A.ufunc_dispatch(self.u, '__call__', args, dict(kw))
        with np.errstate(all='ignore'):
            return wrap(self.u(*args, **kw))

    def _m(self, m, args, kw):
        args = self._prep(args)
        if args and hasattr(args[0], '_sx_sym'):
            from . import mashim
            return mashim.reduce(self.u, args, kw)
        if isinstance(args[0], (list, tuple)):
            args = (from_list(args[0]),) + args[1:]
        if len(args) > 1 and m in ('reduce', 'accumulate'):
            kw = dict(kw, axis=args[1])
            args = args[:1]
        return A.ufunc_dispatch(self.u, m, args, dict(kw))

    def reduce(self, *a, **k):
        return self._m('reduce', a, k)

    def accumulate(self, *a, **k):
        return self._m('accumulate', a, k)

    def outer(self, *a, **k):
        return self._m('outer', a, k)

    def at(self, *a, **k):
        return self._m('at', a, k)

    def __getattr__(self, k):
        return getattr(self.u, k)


class FnWrap:
    def __init__(self, f):
        self.f = f
        self.__name__ = getattr(f, '__name__', '?')
        self.__wrapped__ = f

    def __call__(self, *args, **kw):
        if has_sym(list(args)) or has_sym(kw):
            return dispatch(self.f, args, kw)
        return wrap(self.f(*args, **kw))


class IndexTrick:
    def __init__(self, o):
        self.o = o

    def __getitem__(self, k):
        if has_sym(k if isinstance(k, tuple) else (k,)):
            k = k if isinstance(k, tuple) else (k,)
            if self.o is np.r_:
                parts = [from_any(e) if not isinstance(e, slice) else
                         wrap(np.r_[e]) for e in k]
                parts = [p.reshape(1) if p.ndim == 0 else p for p in parts]
                return struct(np.concatenate, (parts,), {})
            if self.o is np.c_:
                return struct(np.column_stack, ([from_any(e) for e in k],),
                              {})

            def cs(s):
                if isinstance(s, slice):
                    return slice(*[None if v is None else (
                        v if isinstance(v, complex) else int(v))
                        for v in (s.start, s.stop, s.step)])
                return int(s) if is_sym(s) else s
            k = tuple(cs(s) for s in k)
            k = k if len(k) > 1 else k[0]
        r = self.o[k]
        if isinstance(r, tuple):
            return tuple(wrap(e) for e in r)
        return wrap(r)


def ndindex(*shape_):
    if len(shape_) == 1 and isinstance(shape_[0], tuple):
        shape_ = shape_[0]
    return np.ndindex(*[int(s) for s in shape_])


def ndenumerate(a):
    a = from_any(a)
    for ix in np.ndindex(*a.shape):
        yield ix, plain(a)[ix]


def fromfunction(f, shape, dtype=float, **kw):
    return f(*wrap(tuple(np.indices(ints(shape), dtype=dtype))), **kw)


def fromiter(it, dtype, count=-1):
    return from_list(list(it), dt_of(dtype))


def meshgrid(*xi, **kw):
    return rewrap(np.meshgrid(*[obj(x) for x in xi], **kw), None)


OVERRIDE = dict(
    zeros=zeros, ones=ones, empty=empty, full=full, arange=arange,
    linspace=linspace, array=array, asarray=asarray, asanyarray=asarray,
    ascontiguousarray=asarray, asfarray=asarray, vectorize=Vectorize,
    ndindex=ndindex, ndenumerate=ndenumerate, fromfunction=fromfunction,
    fromiter=fromiter, meshgrid=meshgrid, where=where, copy=copy_,
    r_=IndexTrick(np.r_), c_=IndexTrick(np.c_), ogrid=IndexTrick(np.ogrid),
    mgrid=IndexTrick(np.mgrid), shape=shape, ndim=ndim, size=size,
    isscalar=isscalar)


class NpModule(types.ModuleType):
    """attribute access falls through to the real numpy"""

    def __init__(self, name='numpy', real=np):
        super().__init__(name)
        self.__dict__['_real'] = real
        self.__dict__['_cache'] = {}

    def __getattr__(self, k):
        c = self._cache
        if k in c:
            return c[k]
        if self._real is np and k in OVERRIDE:
            v = OVERRIDE[k]
        elif self._real is np and k == 'ma':
            from . import mashim
            v = mashim.MODULE
        else:
            r = getattr(self._real, k)
            if isinstance(r, np.ufunc):
                v = UfWrap(r)
            elif isinstance(r, type):
                v = r
            elif isinstance(r, types.ModuleType):
                v = NpModule(r.__name__, r) if r.__name__.startswith(
                    'numpy') and k not in ('testing', 'typing') else r
            elif callable(r) and k not in ('errstate', 'seterr', 'geterr',
                                           'dtype', 'finfo', 'iinfo',
                                           'set_printoptions',
                                           'issubdtype'):
                v = FnWrap(r)
            else:
                v = r
        c[k] = v
        return v


MODULE = NpModule()
