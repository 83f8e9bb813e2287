"""SArr: numpy arrays (object storage) whose elements may be symbolic."""
import math
import numbers

import numpy as np
import z3

from . import vals as V
from .core import Unsupported, ctx
from .vals import (SBool, SInt, SFlt, is_sym, ite, scalar_binop, scalar_cmp)

_OBJ = np.dtype(object)


def dt_of(dt):
    if dt is None:
        return np.dtype('float64')
    if isinstance(dt, np.dtype):
        return dt
    if dt is float:
        return np.dtype('float64')
    if dt is int:
        return np.dtype('int64')
    return np.dtype(dt)


def elem_dt(x):
    if isinstance(x, (SFlt, float)):
        return np.dtype('float64')
    if isinstance(x, (SBool, bool, np.bool_)):
        return np.dtype(bool)
    if isinstance(x, np.generic):
        return x.dtype
    if isinstance(x, (SInt, int)):
        return np.dtype('int64')
    return _OBJ


def norm(x):
    """normal form of an element"""
    if is_sym(x):
        return x
    if isinstance(x, (bool, np.bool_)):
        return np.bool_(x)
    if isinstance(x, (float, np.floating)):
        return np.float64(x) if not isinstance(x, np.float32) else \
            np.float64(float(x))
    if isinstance(x, (int, np.integer)):
        v = int(x)
        return np.int64(v) if -2 ** 63 <= v < 2 ** 63 else v
    if isinstance(x, np.ndarray) and x.ndim == 0:
        return norm(x[()])
    return x


def cast_elem(x, dt, casting_from_float_assign=False):
    """value stored in an array of logical dtype dt"""
    k = dt.kind
    if k == 'O':
        return x
    x = V.unwrap0(x)
    if x is None:
        if k == 'f':
            return np.float64('nan')
        raise TypeError("int() argument must be ... not 'NoneType'")
    if isinstance(x, (str, bytes)):
        if k in 'SU':
            return x
        x = float(x) if k == 'f' else int(x)
    if isinstance(x, (list, tuple, np.ndarray)):
        raise ValueError('setting an array element with a sequence.')
    if k == 'f':
        if isinstance(x, SFlt):
            return SFlt(x.v, x.n) if x.py else x
        if is_sym(x):
            f = V.to_flt(x)
            return SFlt(f.v, f.n)
        return np.float64(x)
    if k in 'iu':
        if isinstance(x, SInt):
            return V.wrap_int(SInt(x.e) if x.py else x, dt)
        if isinstance(x, (SBool,)):
            return V.mk_int(V.iexpr(x))
        if isinstance(x, SFlt):
            if x.n is not False and not isinstance(x.n, bool):
                # casting nan to int is undefined: any value
                c = ctx()
                u = c.fresh('nancast', z3.IntSort())
                return V.wrap_int(V.mk_int(z3.If(
                    x.n, u, V._trunc_int(x.v))), dt)
            return V.wrap_int(V.mk_int(V._trunc_int(x.v)), dt)
        if isinstance(x, (float, np.floating)) and (
                math.isnan(x) or math.isinf(x)):
            if casting_from_float_assign:
                if math.isnan(x):
                    raise ValueError('cannot convert float NaN to integer')
                raise OverflowError('cannot convert float infinity to integer')
            return np.int64(np.iinfo('int32').min)
        if not -2 ** 63 <= int(x) < 2 ** 63:
            return int(x)
        return V.wrap_int(np.int64(int(x)), dt)
    if k == 'b':
        if is_sym(x):
            return V.norm_bool(V.bexpr(x))
        return np.bool_(bool(x))
    if k in 'SU':
        return str(x)
    raise Unsupported('dtype %s' % dt)


def clamped(a, dt):
    """an array of numbers as GDAL stores them in an integer band"""
    q = obj(a).copy()
    for ix in np.ndindex(q.shape):
        v = q[ix]
        if isinstance(v, (SFlt, float, np.floating)):
            v = cast_elem(v, np.dtype('int64'))
        elif isinstance(v, (SBool, bool, np.bool_)):
            continue
        q[ix] = V.clamp_int(v, dt)
    return make(q, dt)


def make(obj, dt):
    """object ndarray -> SArr with logical dtype"""
    r = np.asarray(obj, dtype=object).view(SArr)
    r._dt = dt
    return r


def from_list(lst, dt=None):
    """np.array(...) of nested lists possibly holding symbolic values"""
    if isinstance(lst, SArr):
        return lst.astype(dt) if dt is not None else lst.copy()
    shape = _shape(lst)
    flat = []
    _flatten(lst, len(shape), flat)
    if dt is None:
        d = None
        for x in flat:
            e = elem_dt(x)
            if isinstance(x, SFlt) and d is not None and d.kind == 'f':
                continue
            d = e if d is None else (
                _OBJ if _OBJ in (d, e) else np.promote_types(d, e))
        dt = d if d is not None else np.dtype('float64')
    out = np.empty(len(flat), dtype=object)
    for i, x in enumerate(flat):
        out[i] = cast_elem(norm(x), dt)
    return make(out.reshape(shape), dt)


def _shape(x):
    if isinstance(x, np.ndarray):
        return x.shape
    if isinstance(x, (MaskedSel, MaskIdx)):
        return np.shape(x.materialize())
    if hasattr(x, '__array__') and not is_sym(x) and \
            not isinstance(x, np.generic):
        return np.shape(x.__array__())
    if isinstance(x, (list, tuple)):
        if not x:
            return (0,)
        return (len(x),) + tuple(_shape(x[0]))
    if isinstance(x, range):
        return (len(x),)
    return ()


def _flatten(x, depth, out):
    if isinstance(x, (MaskedSel, MaskIdx)):
        x = x.materialize()
    if isinstance(x, tuple) and depth and x and isinstance(
            x[0], (MaskedSel, MaskIdx)):
        x = [e.materialize() for e in x]
    if isinstance(x, np.ndarray):
        for e in x.astype(object).ravel() if not isinstance(x, SArr) \
                else np.asarray(x).ravel():
            out.append(e)
        return
    if depth == 0:
        out.append(x)
        return
    if hasattr(x, '__array__') and not is_sym(x) and not isinstance(
            x, (list, tuple)):
        x = list(x.__array__())
    for e in x:
        _flatten(e, depth - 1, out)


def wrap(x):
    """real numpy result -> SArr (recursively)"""
    if isinstance(x, SArr):
        return x
    if isinstance(x, np.ma.MaskedArray):
        return x
    if isinstance(x, np.ndarray):
        if x.dtype.kind in 'biuf':
            o = np.empty(x.shape, dtype=object)
            src = x.astype('float64') if x.dtype.kind == 'f' else (
                x.astype('int64') if x.dtype.kind in 'iu' and
                x.dtype.itemsize < 8 or x.dtype.kind == 'i' else x)
            if x.ndim == 0:
                o[()] = norm(src[()])
            else:
                of, sf = o.reshape(-1), src.reshape(-1)
                for i in range(of.size):
                    of[i] = norm(sf[i])
                o = of.reshape(x.shape)
            return make(o, x.dtype)
        if x.dtype == _OBJ:
            return guess(x)
        return x
    if isinstance(x, tuple):
        if hasattr(x, '_fields'):
            return type(x)(*[wrap(e) for e in x])
        return tuple(wrap(e) for e in x)
    if isinstance(x, list):
        return [wrap(e) for e in x]
    return x


def guess(x):
    """object ndarray -> SArr, dtype from its elements"""
    x = np.asarray(x, dtype=object)
    d = None
    for e in x.ravel():
        t = elem_dt(e)
        d = t if d is None else (
            _OBJ if _OBJ in (d, t) else np.promote_types(d, t))
    return make(x, d if d is not None else np.dtype('float64'))


def concrete(a):
    """SArr -> real ndarray if no element is symbolic, else None"""
    x = np.asarray(a, dtype=object)
    for e in x.ravel():
        if is_sym(e):
            return None
    dt = a._dt
    if dt is None or dt == _OBJ:
        return x
    out = np.empty(x.shape, dtype=dt)
    with np.errstate(all='ignore'):
        if x.ndim == 0:
            out[()] = x[()]
        else:
            for i, e in enumerate(x.reshape(-1)):
                try:
                    out.reshape(-1)[i] = e
                except ValueError:
                    out.reshape(-1)[i] = cast_elem(e, dt)
    return out


def plain(a):
    """SArr -> plain object ndarray view"""
    if isinstance(a, SArr):
        return np.ndarray.view(a, np.ndarray)
    return a


def obj(a):
    """anything array-like -> plain object ndarray of normal elements"""
    if isinstance(a, (MaskedSel, MaskIdx)):
        a = a.materialize()
    if isinstance(a, SArr):
        return plain(a)
    if isinstance(a, np.ndarray):
        return plain(wrap(a)) if a.dtype != _OBJ else a
    if isinstance(a, (list, tuple, range)):
        return plain(from_list(a))
    if hasattr(a, '__array__') and not is_sym(a) and \
            not isinstance(a, np.generic):
        return plain(wrap(np.asarray(a.__array__())))
    o = np.empty((), dtype=object)
    o[()] = norm(a)
    return o


def adt(a):
    """logical dtype of an operand; python scalars are weak (None)"""
    if isinstance(a, SArr):
        return a._dt
    if isinstance(a, MaskedSel):
        return a.vals._dt
    if isinstance(a, np.ndarray):
        return a.dtype
    return elem_dt(a)


def is_weak(a):
    return not isinstance(a, (np.ndarray, MaskedSel)) and (
        isinstance(a, (SVal_t, int, float, bool, np.generic)))


SVal_t = V.SVal


def widened(r, s):
    """integer type of an array of type r and a scalar: numpy 1.26 goes by
    the value"""
    if s is None or r.itemsize >= 8 and r.kind == 'i':
        return r
    if not is_sym(s):
        return np.result_type(np.empty(1, r), int(s))
    if not isinstance(s, SInt):
        return r
    lo, hi = V.limits(r)
    if V.within(s.e, lo, hi) or ctx().decide(z3.And(s.e >= lo, s.e <= hi)):
        return r
    if ctx().decide(s.e < 0):
        reps = [-2 ** 7, -2 ** 15, -2 ** 31]
    else:
        reps = [2 ** 8 - 1, 2 ** 15 - 1, 2 ** 16 - 1, 2 ** 31 - 1, 2 ** 32 - 1]
    for v in reps:
        if ctx().decide(s.e >= v if v < 0 else s.e <= v):
            return np.result_type(np.empty(1, r), v)
    return np.dtype('int64')


def result_dt(op, ins):
    """logical dtype of an arithmetic result (numpy 1.26 value rules)"""
    arrs = [adt(a) for a in ins if not is_weak(a)]
    scal = [adt(a) for a in ins if is_weak(a)]
    if any(d == _OBJ for d in arrs + scal):
        return _OBJ
    order = {'b': 0, 'u': 1, 'i': 1, 'f': 2, 'c': 3}

    def prom(ds):
        r = ds[0]
        for d in ds[1:]:
            r = np.promote_types(r, d)
        return r
    if arrs:
        r = prom(arrs)
        for s in scal:
            if order.get(s.kind, 9) > order.get(r.kind, 9):
                r = np.promote_types(r, s) if s.kind != 'f' or \
                    r.kind == 'f' else (np.dtype('float64'))
        if r.kind in 'iu':
            for a in ins:
                if is_weak(a) and adt(a).kind in 'iu':
                    r = widened(r, a)
    else:
        r = prom(scal)
    return r


# -- elementwise ufunc table ---------------------------------------------
def _cmp(op):
    return lambda a, b: scalar_cmp(op, a, b)


def _bin(op):
    return lambda a, b: scalar_binop(op, a, b)


def l_and(a, b):
    return V.norm_bool(V.zand(V.bexpr(a), V.bexpr(b)))


def l_or(a, b):
    return V.norm_bool(V.zor(V.bexpr(a), V.bexpr(b)))


def l_not(a):
    return V.norm_bool(V.znot(V.bexpr(a)))


def l_xor(a, b):
    x, y = V.bexpr(a), V.bexpr(b)
    return V.norm_bool(z3.Xor(V.zb(x), V.zb(y)))


def bw(op):
    def f(a, b):
        bt = (bool, np.bool_, SBool)
        if isinstance(a, bt) and isinstance(b, bt):
            return {'and': l_and, 'or': l_or, 'xor': l_xor}[op](a, b)
        a, b = int(a), int(b)
        return {'and': a & b, 'or': a | b, 'xor': a ^ b}[op]
    return f


def invert(a):
    if isinstance(a, (bool, np.bool_, SBool)):
        return l_not(a)
    return ~a


def sign_(a):
    if not is_sym(a):
        return np.sign(a)
    if isinstance(a, SInt):
        return V.mk_int(z3.If(a.e > 0, 1, z3.If(a.e < 0, -1, 0)))
    return SFlt(z3.If(a.v > 0, z3.RealVal(1),
                      z3.If(a.v < 0, z3.RealVal(-1), z3.RealVal(0))), a.n)


def np_mod(a, b):
    if not (is_sym(a) or is_sym(b)):
        with np.errstate(all='ignore'):
            return np.mod(a, b)
    return scalar_binop('mod', a, b)


def deg2rad(a):
    return scalar_binop('mul', a, np.float64(math.pi / 180))


def rad2deg(a):
    return scalar_binop('mul', a, np.float64(180 / math.pi))


def np_div(a, b):
    if is_sym(a) or is_sym(b):
        return scalar_binop('div', a, b)
    with np.errstate(all='ignore'):
        return np.true_divide(a, b)


def np_floordiv(a, b):
    if is_sym(a) or is_sym(b):
        return scalar_binop('floordiv', a, b)
    with np.errstate(all='ignore'):
        return np.floor_divide(a, b)


def np_pow(a, b):
    if is_sym(a) or is_sym(b):
        return scalar_binop('pow', a, b)
    with np.errstate(all='ignore'):
        return np.power(a, b)


def heaviside(a, b):
    return ite(scalar_cmp('gt', a, 0), np.float64(1.0),
               ite(scalar_cmp('lt', a, 0), np.float64(0.0), b))


# integer results that may not fit the type of the operands
GROW = ('add', 'subtract', 'multiply', 'negative', 'absolute', 'abs',
        'square', 'power')
FLT = 'f'     # result dtype: float
BOOL = 'b'
SAME = 's'
UF = {
    'add': (_bin('add'), SAME), 'subtract': (_bin('sub'), SAME),
    'multiply': (_bin('mul'), SAME), 'true_divide': (np_div, FLT),
    'divide': (np_div, FLT), 'floor_divide': (np_floordiv, SAME),
    'remainder': (np_mod, SAME), 'mod': (np_mod, SAME),
    'fmod': (V.fmod_, SAME), 'power': (np_pow, SAME),
    'float_power': (np_pow, FLT),
    'negative': (V.neg, SAME), 'positive': (lambda a: a, SAME),
    'absolute': (V.absolute, SAME), 'fabs': (V.absolute, FLT),
    'abs': (V.absolute, SAME),
    'square': (lambda a: scalar_binop('mul', a, a), SAME),
    'sqrt': (V.sqrt_, FLT), 'log': (V.log_, FLT), 'exp': (V.exp_, FLT),
    'hypot': (V.hypot_, FLT), 'arctan': (V.arctan_, FLT),
    'arctan2': (V.arctan2_, FLT), 'sin': (V.trig('sin'), FLT),
    'cos': (V.trig('cos'), FLT), 'tan': (V.trig('tan'), FLT),
    'arcsin': (V.trig('arcsin'), FLT), 'arccos': (V.trig('arccos'), FLT),
    'deg2rad': (deg2rad, FLT), 'radians': (deg2rad, FLT),
    'rad2deg': (rad2deg, FLT), 'degrees': (rad2deg, FLT),
    'floor': (V.floor_, FLT), 'ceil': (V.ceil_, FLT),
    'rint': (V.rint_, FLT), 'trunc': (V.trunc_, FLT),
    'maximum': (V.np_max, SAME), 'minimum': (V.np_min, SAME),
    'fmax': (V.np_fmax, SAME), 'fmin': (V.np_fmin, SAME),
    'less': (_cmp('lt'), BOOL), 'less_equal': (_cmp('le'), BOOL),
    'greater': (_cmp('gt'), BOOL), 'greater_equal': (_cmp('ge'), BOOL),
    'equal': (_cmp('eq'), BOOL), 'not_equal': (_cmp('ne'), BOOL),
    'logical_and': (l_and, BOOL), 'logical_or': (l_or, BOOL),
    'logical_not': (l_not, BOOL), 'logical_xor': (l_xor, BOOL),
    'bitwise_and': (bw('and'), SAME), 'bitwise_or': (bw('or'), SAME),
    'bitwise_xor': (bw('xor'), SAME), 'invert': (invert, SAME),
    'isnan': (V.isnan_, BOOL), 'isfinite': (V.isfinite_, BOOL),
    'isinf': (V.isinf_, BOOL), 'sign': (sign_, SAME),
    'reciprocal': (lambda a: np_div(np.float64(1.0), a), SAME),
    'heaviside': (heaviside, FLT), 'conjugate': (lambda a: a, SAME),
    'cbrt': (lambda a: V.uf('CBRT', a), FLT),
    'copysign': (lambda a, b: ite(scalar_cmp('ge', b, 0), V.absolute(a),
                                  V.neg(V.absolute(a))), FLT),
}
PY2UF = {'add': 'add', 'sub': 'subtract', 'mul': 'multiply',
         'div': 'true_divide', 'floordiv': 'floor_divide',
         'mod': 'remainder', 'pow': 'power', 'lt': 'less',
         'le': 'less_equal', 'gt': 'greater', 'ge': 'greater_equal',
         'eq': 'equal', 'ne': 'not_equal'}


def elementwise(op, a, b):
    return apply_ufunc(PY2UF[op], (a, b))


def out_dt(name, ins):
    kind = UF[name][1]
    if kind == BOOL:
        return np.dtype(bool)
    dt = result_dt(name, ins)
    if dt == _OBJ:
        return dt
    if kind == FLT:
        return dt if dt.kind == 'f' else np.dtype('float64')
    if dt.kind == 'b' and name in ('add', 'multiply'):
        return dt
    if dt.kind == 'b' and name == 'subtract':
        raise TypeError('numpy boolean subtract is not supported')
    if name in ('floor', 'ceil', 'rint', 'trunc') and dt.kind != 'f':
        return np.dtype('float64')
    return dt


def apply_ufunc(name, ins, out=None, where=True, dtype=None):
    if any(isinstance(i, MaskedSel) for i in ins):
        return MaskedSel.apply(name, ins)
    if name not in UF:
        raise Unsupported('ufunc ' + name)
    for i in ins:
        if i is None or isinstance(i, (str, bytes)):
            # array == None / 'x' : elementwise comparison
            arrs = [j for j in ins if isinstance(j, np.ndarray)]
            if name in ('equal', 'not_equal') and arrs:
                shp = arrs[0].shape
                r = np.empty(shp, dtype=object)
                r.fill(np.bool_(name == 'not_equal'))
                if all(not is_sym(e) and not isinstance(e, (str, bytes))
                       for e in plain(arrs[0]).ravel()) or True:
                    return make(r, np.dtype(bool))
            raise TypeError('unsupported operand for ufunc ' + name)
    fn = UF[name][0]
    dt = out_dt(name, ins) if dtype is None else dt_of(dtype)
    objs = [obj(i) for i in ins]
    if where is not True:
        objs.append(obj(where))
    bc = np.broadcast_arrays(*objs) if len(objs) > 1 else objs
    shape = bc[0].shape
    res = np.empty(shape, dtype=object)
    flat = [np.asarray(b).reshape(-1) for b in bc]
    rf = res.reshape(-1)
    n = rf.size
    o = out[0] if isinstance(out, tuple) else out
    of = None
    if o is not None:
        of = np.broadcast_to(obj(o), shape).reshape(-1)
    isb = dt.kind == 'b'
    narrow = dt.kind in 'iu' and (dt.itemsize < 8 or dt.kind == 'u') and \
        name in GROW and any(not is_weak(i) for i in ins)
    c = None
    for k in range(n):
        if where is not True:
            w = flat[-1][k]
            args = [f[k] for f in flat[:-1]]
            if not is_sym(w) and not w:
                rf[k] = of[k] if of is not None else np.float64(0.0)
                continue
            if is_sym(w):
                c = ctx()
                old = c.guard
                c.guard = V.zand(V.bexpr(w), True if old is None else old)
                try:
                    v = fn(*args)
                finally:
                    c.guard = old
                rf[k] = ite(w, v, of[k] if of is not None else
                            np.float64(0.0))
                continue
            v = fn(*args)
        else:
            v = fn(*[f[k] for f in flat])
        rf[k] = np.bool_(v) if isb and isinstance(v, bool) else norm(v)
        if not isb and (dt.kind == 'f' and not isinstance(
                rf[k], (SFlt, np.float64)) or dt.kind in 'iu' and
                isinstance(rf[k], (SFlt, np.float64))):
            rf[k] = cast_elem(rf[k], dt)
        elif narrow:
            rf[k] = V.wrap_int(rf[k], dt)
    if o is not None:
        if isinstance(o, SArr):
            if o.shape != shape:
                raise ValueError('non-broadcastable output operand')
            if _OBJ not in (dt, o._dt) and not np.can_cast(
                    dt, o._dt, 'same_kind'):
                from numpy.core._exceptions import UFuncTypeError
                raise TypeError("Cannot cast ufunc '%s' output from %s to %s "
                                "with casting rule 'same_kind'" %
                                (name, dt, o._dt))
            p = plain(o)
            r2 = np.empty(shape, dtype=object)
            q = r2.reshape(-1)
            for k in range(n):
                q[k] = cast_elem(rf[k], o._dt)
            p[...] = r2
            return o
        raise Unsupported('ufunc out= real array')
    if shape == ():
        return rf[0]
    return make(res.reshape(shape), dt)


def norm_axis(axis, nd):
    if axis is None:
        return tuple(range(nd))
    if not isinstance(axis, (tuple, list)):
        axis = (axis,)
    r = []
    for a in axis:
        a = int(a)
        if a < -nd or a >= nd:
            raise np.AxisError(a, nd) if hasattr(np, 'AxisError') else \
                ValueError('axis out of bounds')
        r.append(a % nd)
    return tuple(r)


def reduce_(fn, a, axis=None, keepdims=False, initial=None, dt=None,
            where=True, empty=None):
    """generic reduction; fn folds a list of elements"""
    x = obj(a)
    if where is not True and where is not np._NoValue:
        w = np.broadcast_to(obj(where), x.shape)
    else:
        w = None
    axes = norm_axis(axis, x.ndim)
    keep = [i for i in range(x.ndim) if i not in axes]
    y = np.transpose(x, keep + list(axes)).reshape(
        [x.shape[i] for i in keep] + [-1])
    if w is not None:
        wy = np.transpose(w, keep + list(axes)).reshape(y.shape)
    oshape = tuple(x.shape[i] for i in keep)
    res = np.empty(oshape, dtype=object)
    rf = res.reshape(-1)
    m = y.shape[-1]
    yf = y.reshape(-1, m) if m else None
    for k in range(rf.size):
        lst = list(yf[k]) if m else []
        if w is not None:
            wl = list(wy.reshape(-1, m)[k]) if m else []
            if any(is_sym(e) for e in wl):
                wl = [bool(e) for e in wl]
            lst = [e for e, f in zip(lst, wl) if f]
        if initial is not None and initial is not np._NoValue:
            lst = [norm(initial)] + lst
        rf[k] = norm(fn(lst))
    if keepdims:
        oshape = tuple(1 if i in axes else x.shape[i]
                       for i in range(x.ndim))
        res = res.reshape(oshape)
    if dt is None:
        dt = adt(a) if isinstance(a, (np.ndarray,)) else None
    if res.shape == ():
        return rf[0]
    return make(res, dt) if dt is not None else guess(res)


EXTREME = {}
for _k in ('max', 'min'):
    EXTREME[_k + 'imum'] = EXTREME['f' + _k] = _k


def fold(name, ident=None):
    fn = UF[name][0]

    def f(lst):
        if not lst:
            if ident is None:
                raise ValueError('zero-size array to reduction operation '
                                 '%s which has no identity' % name)
            return ident
        if name in EXTREME:
            return V.extreme(EXTREME[name], lst, name[0] == 'f')
        r = lst[0]
        for e in lst[1:]:
            r = fn(r, e)
        return r
    return f


REDUCE_ID = {'add': np.int64(0), 'multiply': np.int64(1),
             'logical_and': True, 'logical_or': False,
             'bitwise_and': None, 'bitwise_or': None,
             'maximum': None, 'minimum': None, 'fmax': None, 'fmin': None}


def sum_fn(lst):
    r = np.int64(0)
    first = True
    for e in lst:
        if isinstance(e, (np.bool_, SBool)):
            e = V.mk_int(V.iexpr(e))
        r = e if first else scalar_binop('add', r, e)
        first = False
    return r


def ufunc_dispatch(ufunc, method, inputs, kw):
    name = ufunc.__name__
    out = kw.pop('out', None)
    if out is not None and isinstance(out, tuple) and len(out) == 1 and \
            out[0] is None:
        out = None
    if method == '__call__':
        where = kw.pop('where', True)
        dtype = kw.pop('dtype', None)
        kw.pop('casting', None)
        kw.pop('order', None)
        kw.pop('subok', None)
        if kw:
            raise Unsupported('ufunc kwargs %s' % list(kw))
        if name in ('isclose',):
            raise Unsupported(name)
        if name == 'divmod':
            return (apply_ufunc('floor_divide', inputs),
                    apply_ufunc('remainder', inputs))
        if name == 'modf':
            t = apply_ufunc('trunc', inputs)
            return apply_ufunc('subtract', (inputs[0], t)), t
        if name == 'matmul':
            return matmul(*inputs)
        return apply_ufunc(name, inputs, out=out, where=where, dtype=dtype)
    a = inputs[0]
    if method == 'reduce':
        axis = kw.get('axis', 0)
        keep = kw.get('keepdims', False)
        init = kw.get('initial', None)
        where = kw.get('where', True)
        if init is np._NoValue:
            init = None
        dt = None
        f = sum_fn if name == 'add' else fold(name, REDUCE_ID.get(name))
        if name in ('logical_and', 'logical_or'):
            dt = np.dtype(bool)
            g = f

            def f(lst, g=g):
                return g([V.norm_bool(V.bexpr(e)) for e in lst])
        r = reduce_(f, a, axis, keep, init, dt, where)
        if name == 'add' and adt(a).kind == 'f' and not is_sym(r) and \
                not isinstance(r, np.ndarray):
            r = np.float64(r)
        if out is not None:
            o = out[0] if isinstance(out, tuple) else out
            o[...] = r
            return o
        return r
    if method == 'accumulate':
        axis = kw.get('axis', 0)
        x = np.moveaxis(obj(a), axis, 0)
        res = np.empty(x.shape, dtype=object)
        fn = UF[name][0]
        for i in range(x.shape[0]):
            if i == 0:
                res[0] = x[0]
            else:
                p, q = res[i - 1], x[i]
                if x.ndim == 1:
                    res[i] = norm(fn(p, q))
                else:
                    pf, qf = p.reshape(-1), q.reshape(-1)
                    v = np.empty(pf.size, dtype=object)
                    for k in range(pf.size):
                        v[k] = norm(fn(pf[k], qf[k]))
                    res[i] = v.reshape(p.shape)
        return make(np.moveaxis(res, 0, axis), adt(a))
    if method == 'outer':
        x, y = obj(inputs[0]), obj(inputs[1])
        xx = x.reshape(x.shape + (1,) * y.ndim)
        return apply_ufunc(name, (make(xx, adt(inputs[0])),
                                  make(y, adt(inputs[1]))))
    if method == 'at':
        idx, v = inputs[1], inputs[2] if len(inputs) > 2 else None
        idx = fix_index(idx)
        p = plain(a)
        sub = np.empty(np.asarray(p[idx]).shape, dtype=object)
        ids = np.arange(p.size).reshape(p.shape)[idx].ravel()
        vb = np.broadcast_to(obj(v), sub.shape).ravel()
        fl = p.reshape(-1)
        for k, i in enumerate(ids):
            fl[i] = cast_elem(norm(UF[name][0](fl[i], vb[k])), a._dt)
        if not np.shares_memory(fl, p):
            p[...] = fl.reshape(p.shape)
        return None
    raise Unsupported('ufunc method %s.%s' % (name, method))


def matmul(a, b):
    x, y = obj(a), obj(b)
    if x.ndim > 2 or y.ndim > 2:
        raise Unsupported('matmul > 2-D')
    x2 = x.reshape(1, -1) if x.ndim == 1 else x
    y2 = y.reshape(-1, 1) if y.ndim == 1 else y
    res = np.empty((x2.shape[0], y2.shape[1]), dtype=object)
    for i in range(res.shape[0]):
        for j in range(res.shape[1]):
            res[i, j] = norm(sum_fn([UF['multiply'][0](p, q) for p, q in
                                     zip(x2[i], y2[:, j])]))
    if x.ndim == 1 and y.ndim == 1:
        return res[0, 0]
    if x.ndim == 1:
        res = res[0]
    elif y.ndim == 1:
        res = res[:, 0]
    return make(res, result_dt('mul', (a, b)))


# -- masks ------------------------------------------------------------------
def same_mask(a, b):
    if a is b:
        return True
    if a.shape != b.shape:
        return False
    for x, y in zip(plain(a).ravel(), plain(b).ravel()):
        if x is y:
            continue
        if is_sym(x) != is_sym(y):
            return False
        if is_sym(x):
            if not z3.eq(x.e, y.e):
                return False
        elif bool(x) != bool(y):
            return False
    return True


def mask_concrete(m):
    """fork on every element of a mask -> real bool ndarray"""
    x = plain(m)
    r = np.zeros(x.shape, dtype=bool)
    for i, e in enumerate(x.reshape(-1)):
        r.reshape(-1)[i] = bool(e)
    return r


class MaskIdx(tuple):
    """Lazy result of np.where(mask) / mask.nonzero()."""

    def __new__(cls, mask):
        t = tuple.__new__(cls, ())
        t.mask = mask
        t._m = None
        return t

    def materialize(self):
        if self._m is None:
            self._m = tuple(wrap(i) for i in
                            np.nonzero(mask_concrete(self.mask)))
        return self._m

    def __len__(self):
        return self.mask.ndim

    def __iter__(self):
        return iter(self.materialize())

    def __getitem__(self, i):
        return self.materialize()[i]

    def __bool__(self):
        return True

    @property
    def size(self):
        raise AttributeError('size')


class MaskedSel(np.lib.mixins.NDArrayOperatorsMixin):
    """Lazy a[mask] with a symbolic mask."""
    __array_priority__ = 2000

    def __init__(self, vals, mask):
        self.vals = vals      # same shape as mask
        self.mask = mask
        self._m = None

    def materialize(self):
        if self._m is None:
            m = mask_concrete(self.mask)
            self._m = make(plain(self.vals)[m], self.vals._dt)
        return self._m

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        if method == '__call__' and not kw:
            return apply_ufunc(ufunc.__name__, inputs)
        ins = tuple(i.materialize() if isinstance(i, MaskedSel) else i
                    for i in inputs)
        return ufunc_dispatch(ufunc, method, ins, kw)

    def __array_function__(self, func, types, args, kw):
        from . import npshim
        return npshim.dispatch(func, args, kw)

    @staticmethod
    def apply(name, ins):
        mask = None
        ok = True
        for i in ins:
            if isinstance(i, MaskedSel):
                if mask is None:
                    mask = i.mask
                elif not same_mask(mask, i.mask):
                    ok = False
            elif isinstance(i, np.ndarray) and i.ndim > 0:
                ok = False
        if not ok or mask is None:
            return apply_ufunc(name, tuple(
                i.materialize() if isinstance(i, MaskedSel) else i
                for i in ins))
        full = [i.vals if isinstance(i, MaskedSel) else i for i in ins]
        fn = UF[name][0]
        dt = out_dt(name, full)
        objs = np.broadcast_arrays(*([obj(f) for f in full] + [obj(mask)]))
        shape = mask.shape
        res = np.empty(shape, dtype=object)
        rf = res.reshape(-1)
        fl = [np.asarray(o).reshape(-1) for o in objs]
        c = ctx()
        for k in range(rf.size):
            m = fl[-1][k]
            if not is_sym(m) and not m:
                rf[k] = fl[0][k]
                continue
            old = c.guard
            c.guard = V.zand(V.bexpr(m), True if old is None else old)
            if c.guard is True:
                c.guard = None
            try:
                rf[k] = norm(fn(*[f[k] for f in fl[:-1]]))
            finally:
                c.guard = old
        return MaskedSel(make(res, dt), mask)

    def astype(self, dt, **kw):
        return MaskedSel(self.vals.astype(dt), self.mask)

    def copy(self):
        return MaskedSel(self.vals.copy(), self.mask)

    @property
    def dtype(self):
        return self.vals._dt

    @property
    def ndim(self):
        return 1

    def __getattr__(self, k):
        if k.startswith('_'):
            raise AttributeError(k)
        return getattr(self.materialize(), k)

    def __len__(self):
        return len(self.materialize())

    def __iter__(self):
        return iter(self.materialize())

    def __getitem__(self, i):
        return self.materialize()[i]

    def __setitem__(self, i, v):
        self.materialize()[i] = v

    def __bool__(self):
        return bool(self.materialize())


def fix_index(idx):
    """index with SArr parts -> index real numpy understands; symbolic bool
    masks are reported by returning ('mask', m)"""
    if isinstance(idx, MaskIdx):
        return ('mask', idx.mask)
    if isinstance(idx, SBool):
        return bool(idx)
    if isinstance(idx, (MaskedSel,)):
        idx = idx.materialize()
    if isinstance(idx, np.ndarray) and not isinstance(idx, SArr):
        idx = wrap(idx)
    if isinstance(idx, SArr):
        if idx._dt.kind == 'b':
            c = concrete(idx)
            if c is not None:
                return c
            return ('mask', idx)
        if idx._dt.kind in 'iu' or idx.size == 0 and idx._dt.kind != 'f':
            return np.array([int(e) for e in plain(idx).ravel()],
                            dtype=np.intp).reshape(idx.shape)
        if idx.size == 0 and idx._dt.kind == 'f':
            raise IndexError('arrays used as indices must be of integer '
                             '(or boolean) type')
        raise IndexError('arrays used as indices must be of integer (or '
                         'boolean) type')
    if isinstance(idx, list):
        if any(isinstance(e, (slice, type(Ellipsis))) for e in idx):
            return [fix_index(e) for e in idx]
        if not idx:
            return idx
        return fix_index(from_list(idx))
    if isinstance(idx, tuple):
        r = tuple(fix_index(e) for e in idx)
        out = []
        for e in r:
            if isinstance(e, tuple) and len(e) == 2 and e[0] == 'mask':
                if len(r) == 1:
                    return e
                e = mask_concrete(e[1])
            out.append(e)
        return tuple(out)
    if isinstance(idx, SFlt):
        raise IndexError('only integers, slices (`:`), ellipsis (`...`), '
                         'numpy.newaxis (`None`) and integer or boolean '
                         'arrays are valid indices')
    return idx


class SArr(np.ndarray):
    """ndarray with object storage and a logical dtype"""

    _dt = None

    def __array_finalize__(self, o):
        if o is not None:
            self._dt = getattr(o, '_dt', None)
        if self._dt is None:
            self._dt = np.dtype('float64')

    @property
    def dtype(self):
        return self._dt

    @property
    def itemsize(self):
        return self._dt.itemsize

    @property
    def nbytes(self):
        return self.size * self._dt.itemsize

    @property
    def real(self):
        return self

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        return ufunc_dispatch(ufunc, method, inputs, kw)

    def __array_function__(self, func, types, args, kw):
        from . import npshim
        return npshim.dispatch(func, args, kw)

    # -- indexing
    def __getitem__(self, idx):
        i = fix_index(idx)
        if isinstance(i, tuple) and len(i) == 2 and isinstance(
                i[0], str) and i[0] == 'mask':
            m = i[1]
            if m.shape == self.shape:
                return MaskedSel(self.copy(), m)
            i = mask_concrete(m)
        r = np.ndarray.__getitem__(self, i)
        if isinstance(r, SArr):
            r._dt = self._dt
            return r
        return r

    def __setitem__(self, idx, v):
        i = fix_index(idx)
        p = plain(self)
        dt = self._dt
        if isinstance(i, tuple) and len(i) == 2 and isinstance(
                i[0], str) and i[0] == 'mask':
            m = i[1]
            if m.shape == self.shape:
                if isinstance(v, MaskedSel) and same_mask(v.mask, m):
                    vv = plain(v.vals).ravel()
                elif isinstance(v, MaskedSel) or (
                        isinstance(v, (np.ndarray, list, tuple)) and
                        np.ndim(v) > 0):
                    i = mask_concrete(m)
                    vv = None
                else:
                    e = cast_elem(norm(V.unwrap0(v)), dt, True)
                    vv = [e] * self.size
                if vv is not None:
                    new = np.empty(self.size, dtype=object)
                    mf, of = plain(m).ravel(), p.ravel()
                    for k in range(self.size):
                        b = mf[k]
                        if is_sym(b):
                            new[k] = norm(ite(b, cast_elem(vv[k], dt),
                                              of[k]))
                        else:
                            new[k] = cast_elem(vv[k], dt) if b else of[k]
                    p[...] = new.reshape(self.shape)
                    return
            else:
                i = mask_concrete(m)
        if isinstance(v, (MaskedSel, MaskIdx)):
            v = v.materialize()
        if isinstance(v, (np.ndarray, list, tuple, range)) or (
                hasattr(v, '__array__') and not is_sym(v) and
                not isinstance(v, np.generic)):
            o = obj(v)
            src = np.empty(o.shape, dtype=object)
            if o.ndim == 0:
                p[i] = cast_elem(o[()], dt, True)
                return
            sf, of = src.reshape(-1), o.reshape(-1)
            for k in range(of.size):
                sf[k] = cast_elem(of[k], dt)
            src = sf.reshape(o.shape)
            tgt = p[i]
            if not isinstance(tgt, np.ndarray):
                if src.size == 1:
                    p[i] = src.reshape(-1)[0]
                    return
                raise ValueError('setting an array element with a sequence.')
            p[i] = src
            return
        e = cast_elem(norm(v), dt, True)
        p[i] = e

    def __iter__(self):
        for k in range(len(self)):
            yield self[k]

    def __contains__(self, x):
        return bool((self == x).any())

    def __bool__(self):
        if self.size == 1:
            return bool(plain(self).reshape(-1)[0])
        if self.size == 0:
            return False
        raise ValueError('The truth value of an array with more than one '
                         'element is ambiguous. Use a.any() or a.all()')

    def _scalar(self):
        if self.size != 1:
            raise TypeError('only size-1 arrays can be converted to Python '
                            'scalars')
        return plain(self).reshape(-1)[0]

    def __float__(self):
        return float(self._scalar())

    def __int__(self):
        return int(self._scalar())

    def __index__(self):
        if self.ndim or self._dt.kind not in 'iu':
            raise TypeError('only integer scalar arrays can be converted to '
                            'a scalar index')
        return int(self._scalar())

    def __repr__(self):
        return 'SArr(%s, %s)' % (self.tolist() if self.size < 30 else
                                 self.shape, self._dt)
    __str__ = __repr__

    def __format__(self, spec):
        return '<symarray>'

    def __reduce__(self):
        raise Unsupported('pickling a symbolic array')

    # -- methods
    def astype(self, dt, order='K', casting='unsafe', subok=True, copy=True):
        dt = dt_of(dt)
        if dt == self._dt and not copy:
            return self
        o = np.empty(self.shape, dtype=object)
        sf = plain(self).reshape(-1)
        of = o.reshape(-1)
        for k in range(of.size):
            of[k] = cast_elem(sf[k], dt)
        return make(of.reshape(self.shape), dt)

    def copy(self, order='C'):
        return make(plain(self).copy(), self._dt)

    def __copy__(self):
        return self.copy()

    def __deepcopy__(self, memo):
        return self.copy()

    def fill(self, v):
        plain(self).fill(cast_elem(norm(v), self._dt, True))

    def tolist(self):
        def py(x):
            return V.to_py(x)

        def rec(a):
            if a.ndim == 0:
                return py(a[()])
            if a.ndim == 1:
                return [py(e) for e in a]
            return [rec(e) for e in a]
        return rec(plain(self))

    def item(self, *a):
        if not a:
            return V.to_py(self._scalar())
        return V.to_py(self[a if len(a) > 1 else a[0]]
                       if len(a) > 1 or self.ndim == 1 else
                       plain(self).reshape(-1)[a[0]])

    def nonzero(self):
        m = self if self._dt.kind == 'b' else (self != 0)
        c = concrete(m)
        if c is not None:
            return tuple(wrap(i) for i in np.nonzero(c))
        return MaskIdx(m)

    def _np(self, name, *a, **k):
        from . import npshim
        return npshim.HANDLERS[name](self, *a, **k)

    def sum(self, axis=None, dtype=None, out=None, keepdims=False,
            initial=None, where=True):
        return self._np('sum', axis=axis, keepdims=keepdims)

    def mean(self, axis=None, dtype=None, out=None, keepdims=False,
             where=True):
        return self._np('mean', axis=axis, keepdims=keepdims)

    def max(self, axis=None, out=None, keepdims=False, initial=None,
            where=True):
        return self._np('max', axis=axis, keepdims=keepdims, initial=initial)

    def min(self, axis=None, out=None, keepdims=False, initial=None,
            where=True):
        return self._np('min', axis=axis, keepdims=keepdims, initial=initial)

    def any(self, axis=None, out=None, keepdims=False, where=True):
        return self._np('any', axis=axis, keepdims=keepdims)

    def all(self, axis=None, out=None, keepdims=False, where=True):
        return self._np('all', axis=axis, keepdims=keepdims)

    def prod(self, axis=None, dtype=None, out=None, keepdims=False):
        return self._np('prod', axis=axis, keepdims=keepdims)

    def cumsum(self, axis=None, dtype=None, out=None):
        return self._np('cumsum', axis=axis)

    def argmax(self, axis=None, out=None, keepdims=False):
        return self._np('argmax', axis=axis)

    def argmin(self, axis=None, out=None, keepdims=False):
        return self._np('argmin', axis=axis)

    def round(self, decimals=0, out=None):
        return self._np('around', decimals)

    def clip(self, min=None, max=None, out=None, **k):
        return self._np('clip', min, max)

    def dot(self, b, out=None):
        return matmul(self, b)

    def std(self, *a, **k):
        raise Unsupported('std')

    def sort(self, axis=-1, kind=None, order=None):
        r = self._np('sort', axis=axis)
        plain(self)[...] = plain(r)

    def argsort(self, *a, **k):
        return self._np('argsort')

    def searchsorted(self, v, side='left', sorter=None):
        return self._np('searchsorted', v, side)

    def compress(self, cond, axis=None, out=None):
        from . import npshim
        return npshim.HANDLERS['compress'](cond, self, axis)

    def repeat(self, n, axis=None):
        return make(plain(self).repeat(n, axis), self._dt)

    def take(self, idx, axis=None, out=None, mode='raise'):
        i = fix_index(from_list(idx) if isinstance(idx, (list, tuple))
                      else idx)
        r = plain(self).take(i, axis)
        return make(r, self._dt) if isinstance(r, np.ndarray) else r

    def ptp(self, axis=None):
        return self.max(axis) - self.min(axis)

    def tobytes(self, *a):
        raise Unsupported('tobytes')

    def view(self, *a, **k):
        if a and a[0] is np.ndarray or not a:
            return np.ndarray.view(self, SArr)
        if isinstance(a[0], type) and issubclass(a[0], np.ndarray):
            raise Unsupported('view as %s' % a[0])
        raise Unsupported('view with dtype')

    def __ilshift__(self, o):
        raise Unsupported('<<=')
