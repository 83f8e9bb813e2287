"""numpy.ma for symbolic execution (the operations masked rasters need)."""
import types

import numpy as np

from . import arr as A
from . import vals as V
from . import npshim as N
from .arr import SArr, apply_ufunc, make, plain
from .core import Unsupported

BOOL = np.dtype(bool)


class SMasked(np.lib.mixins.NDArrayOperatorsMixin):
    _sx_sym = True
    __array_priority__ = 3000

    def __init__(self, data, mask=None, fill_value=None):
        self.data_arr = N.from_any(data)
        if mask is None or mask is np.ma.nomask:
            mask = N.full_(self.data_arr.shape, False, bool)
        m = N.from_any(mask)
        if m.shape != self.data_arr.shape:
            b = N.full_(self.data_arr.shape, False, bool)
            b[...] = m
            m = b
        self.mask_arr = m.astype(bool)
        self.fv = 1e20 if fill_value is None else fill_value

    # attributes
    @property
    def data(self):
        return self.data_arr

    @property
    def mask(self):
        return self.mask_arr

    @mask.setter
    def mask(self, m):
        self.mask_arr = SMasked(self.data_arr, m).mask_arr

    @property
    def fill_value(self):
        return self.fv

    @fill_value.setter
    def fill_value(self, v):
        self.fv = v

    def set_fill_value(self, v):
        self.fv = v

    shape = property(lambda s: s.data_arr.shape)
    ndim = property(lambda s: s.data_arr.ndim)
    size = property(lambda s: s.data_arr.size)
    dtype = property(lambda s: s.data_arr._dt)
    T = property(lambda s: s.transpose())

    def filled(self, fill_value=None):
        v = self.fv if fill_value is None else fill_value
        r = N.where(self.mask_arr, v, self.data_arr)
        return r.astype(self.data_arr._dt)

    def __getitem__(self, i):
        d, m = self.data_arr[i], self.mask_arr[i]
        if isinstance(d, SArr):
            r = SMasked(d, m, self.fv)
            r.data_arr, r.mask_arr = d, m
            return r
        if isinstance(d, (A.MaskedSel,)):
            return SMasked(d.materialize(), m.materialize(), self.fv)
        if bool(m):
            return np.ma.masked
        return d

    def __setitem__(self, i, v):
        if v is np.ma.masked:
            self.mask_arr[i] = True
        elif isinstance(v, SMasked):
            self.data_arr[i] = v.data_arr
            self.mask_arr[i] = v.mask_arr
        else:
            self.data_arr[i] = v
            self.mask_arr[i] = False

    def __len__(self):
        return len(self.data_arr)

    def __iter__(self):
        for k in range(len(self)):
            yield self[k]

    def __array_ufunc__(self, u, method, *inputs, **kw):
        if method == '__call__':
            return ufunc(u, inputs, kw)
        return reduce(u, inputs, kw)

    def __array_function__(self, func, types_, args, kw):
        return dispatch(func, args, kw)

    def _move(self, name, *a, **k):
        return SMasked(getattr(self.data_arr, name)(*a, **k),
                       getattr(self.mask_arr, name)(*a, **k), self.fv)

    def transpose(self, *a):
        return self._move('transpose', *a)

    def reshape(self, *a, **k):
        return self._move('reshape', *a, **k)

    def ravel(self, *a):
        return self._move('ravel', *a)

    def flatten(self, *a):
        return self._move('flatten', *a)

    def copy(self):
        return SMasked(self.data_arr.copy(), self.mask_arr.copy(), self.fv)

    def astype(self, dt, **k):
        return SMasked(self.data_arr.astype(dt), self.mask_arr, self.fv)

    def count(self, axis=None):
        return N.HANDLERS['sum'](~self.mask_arr, axis=axis)

    def max(self, axis=None, **k):
        return masked_reduce('maximum', self, axis)

    def min(self, axis=None, **k):
        return masked_reduce('minimum', self, axis)

    def sum(self, axis=None, **k):
        return masked_reduce('add', self, axis)

    def prod(self, axis=None, **k):
        return masked_reduce('multiply', self, axis)

    def any(self, axis=None, **k):
        return N.HANDLERS['any'](self.filled(False), axis=axis)

    def all(self, axis=None, **k):
        return N.HANDLERS['all'](self.filled(True), axis=axis)

    def compressed(self):
        m = self.data_arr[~self.mask_arr]
        return m.materialize() if isinstance(m, A.MaskedSel) else m


IDENT = {'maximum': None, 'minimum': None, 'add': 0.0, 'multiply': 1.0}


def masked_reduce(name, m, axis=None):
    fn = A.UF[name][0]
    pair = np.empty(m.shape, dtype=object)
    d, k = plain(m.data_arr), plain(m.mask_arr)
    for ix in np.ndindex(*m.shape):
        pair[ix] = _Pair(d[ix], k[ix])

    def f(lst):
        r = lst[0]
        for p in lst[1:]:
            both = fn(V.nz(r.v) if False else r.v, p.v)
            v = V.ite(r.m, p.v, V.ite(p.m, r.v, both))
            r = _Pair(v, A.l_and(r.m, p.m))
        return r
    r = A.reduce_(f, make(pair, np.dtype(object)), axis, dt=np.dtype(object))
    if isinstance(r, _Pair):
        if bool(r.m):
            return np.ma.masked
        return r.v
    x = plain(r)
    dd = np.empty(x.shape, dtype=object)
    mm = np.empty(x.shape, dtype=object)
    for ix in np.ndindex(*x.shape):
        # what lies below the mask, and the default fill value of a new array
        under = {'add': 0, 'multiply': 1}.get(
            name, 1e20 if m.dtype.kind == 'f' else 999999)
        dd[ix], mm[ix] = A.norm(V.ite(x[ix].m, under, x[ix].v)), \
            A.norm(x[ix].m)
    return SMasked(make(dd, m.dtype), make(mm, BOOL))


class _Pair:
    def __init__(self, v, m):
        self.v, self.m = v, m


def split(x):
    if isinstance(x, SMasked):
        return x.data_arr, x.mask_arr
    if isinstance(x, np.ma.MaskedArray):
        return N.wrap(np.asarray(x.data)), N.wrap(np.ma.getmaskarray(x))
    return x, None


def ufunc(u, inputs, kw):
    """data part is the plain ufunc, masks are or-ed"""
    out = kw.get('out')
    if out is not None:
        o = out[0] if isinstance(out, tuple) else out
        if not isinstance(o, SMasked):
            raise Unsupported('masked out=')
        kw = {k: v for k, v in kw.items() if k != 'out'}
    ds, m = [], None
    fv = None
    for i in inputs:
        d, k = split(i)
        ds.append(d)
        if isinstance(i, SMasked) and fv is None:
            fv = i.fv
        if k is not None:
            m = k if m is None else apply_ufunc('logical_or', (m, k))
    old = None
    r = A.ufunc_dispatch(u, '__call__', tuple(ds), dict(kw))
    r = SMasked(r, m, fv)
    if out is not None:
        o.data_arr[...] = r.data_arr
        o.mask_arr[...] = r.mask_arr
        return o
    return r


def reduce(u, args, kw):
    a = args[0]
    axis = kw.get('axis', args[1] if len(args) > 1 else 0)
    return masked_reduce(u.__name__, a, axis)


KEEP = set('transpose reshape ravel flipud fliplr flip rot90 swapaxes '
           'moveaxis squeeze expand_dims'.split())


def dispatch(func, args, kw):
    name = getattr(func, '__name__', '')
    a0 = args[0] if args else None
    if name in KEEP and isinstance(a0, SMasked):
        return SMasked(N.struct(func, (a0.data_arr,) + tuple(args[1:]), kw),
                       N.struct(func, (a0.mask_arr,) + tuple(args[1:]), kw),
                       a0.fv)
    if name in N.STRUCT:
        # plain numpy joins keep the data and drop the masks
        def strip(x):
            if isinstance(x, SMasked):
                return x.data_arr
            if isinstance(x, (list, tuple)):
                return [strip(e) for e in x]
            return x
        return SMasked(N.struct(func, tuple(strip(a) for a in args), kw))
    if name in ('max', 'amax', 'min', 'amin', 'sum', 'prod', 'any', 'all'):
        m = {'amax': 'max', 'amin': 'min'}.get(name, name)
        axis = kw.get('axis', args[1] if len(args) > 1 else None)
        return getattr(a0, m)(axis=axis)
    if name in ('shape', 'ndim', 'size'):
        return getattr(a0, name)
    if name in ('isnan', 'where', 'nanmax', 'nanmin', 'isclose', 'array',
                'asarray'):
        def strip2(x):
            return x.data_arr if isinstance(x, SMasked) else x
        return N.dispatch(func, tuple(strip2(a) for a in args), kw)
    raise Unsupported('numpy function %s on a masked array' % name)


# -- functions of numpy.ma -------------------------------------------------
def masked_values(x, value, rtol=1e-5, atol=1e-8, copy=True, shrink=True):
    d = N.from_any(x)
    if d._dt.kind == 'f':
        m = N.isclose(d, value, rtol, atol)
    else:
        m = apply_ufunc('equal', (d, value))
    return SMasked(d.copy() if copy else d, m, value)


def masked_equal(x, value, copy=True):
    d, k = split(x)
    d = N.from_any(d)
    m = apply_ufunc('equal', (d, value))
    if k is not None:
        m = apply_ufunc('logical_or', (m, k))
    return SMasked(d.copy() if copy else d, m, value)


def masked_where(cond, a, copy=True):
    d, k = split(a)
    d = N.from_any(d)
    c, _ = split(cond)
    c = N.from_any(c)
    if c.shape != d.shape:
        raise IndexError('Inconsistent shape between the condition and the '
                         'input')
    m = c
    if k is not None:
        m = apply_ufunc('logical_or', (m, k))
    return SMasked(d.copy() if copy else d, m)


def masked_invalid(a, copy=True):
    d, k = split(a)
    d = N.from_any(d)
    m = apply_ufunc('isnan', (d,))
    if k is not None:
        m = apply_ufunc('logical_or', (m, k))
    return SMasked(d.copy() if copy else d, m)


def masked_array(data, mask=None, dtype=None, copy=False, fill_value=None,
                 **k):
    d, m = split(data)
    d = N.from_any(d)
    if dtype is not None:
        d = d.astype(dtype)
    if mask is not None:
        m = mask if m is None else apply_ufunc('logical_or', (m, mask))
    return SMasked(d.copy() if copy else d, m, fill_value)


def filled(a, fill_value=None):
    return a.filled(fill_value) if isinstance(a, SMasked) else a


def getdata(a, subok=True):
    return a.data_arr if isinstance(a, SMasked) else N.from_any(a)


def getmaskarray(a):
    return a.mask_arr if isinstance(a, SMasked) else \
        N.full_(np.shape(a), False, bool)


def _join(func):
    def f(arrays, axis=0, **k):
        if func is np.dstack:
            kw = {}
        elif func in (np.vstack, np.hstack):
            kw = {}
        else:
            kw = {'axis': axis}
        ds = [split(a)[0] for a in arrays]
        ms = [getmaskarray(a) for a in arrays]
        return SMasked(N.struct(func, (ds,), kw), N.struct(func, (ms,), kw))
    return f


def _uf(name):
    u = getattr(np, name)

    def f(*a, **k):
        return ufunc(u, a, k)
    f.__name__ = name
    f.reduce = lambda a, axis=0, **k: masked_reduce(name, a, axis)
    return f


def _red(name):
    def f(a, axis=None, **k):
        return getattr(a, name)(axis=axis)
    return f


class MaModule(types.ModuleType):
    def __getattr__(self, k):
        raise Unsupported('numpy.ma.%s' % k)


MODULE = MaModule('numpy.ma')
MODULE.__dict__.update(
    masked_values=masked_values, masked_equal=masked_equal,
    masked_where=masked_where, masked_invalid=masked_invalid,
    masked_array=masked_array, array=masked_array, MaskedArray=SMasked,
    asarray=masked_array, asanyarray=masked_array,
    filled=filled, getdata=getdata, getmask=getmaskarray,
    getmaskarray=getmaskarray, masked=np.ma.masked, nomask=np.ma.nomask,
    dstack=_join(np.dstack), stack=_join(np.stack), vstack=_join(np.vstack),
    hstack=_join(np.hstack), concatenate=_join(np.concatenate),
    multiply=_uf('multiply'), add=_uf('add'), subtract=_uf('subtract'),
    maximum=_uf('maximum'), minimum=_uf('minimum'),
    divide=_uf('divide'), max=_red('max'), min=_red('min'),
    amax=_red('max'), sum=_red('sum'), prod=_red('prod'),
    product=_red('prod'),
    is_masked=lambda a: bool(getmaskarray(a).any()),
    isMaskedArray=lambda a: isinstance(a, SMasked),
    isMA=lambda a: isinstance(a, SMasked))
