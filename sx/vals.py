"""Symbolic scalars and the elementwise semantics of Python/numpy numbers."""
import math
import numbers
from fractions import Fraction

import numpy as np
import z3

from . import core
from .core import Unsupported, frac, ctx

TRUE = z3.BoolVal(True)
FALSE = z3.BoolVal(False)


def zor(a, b):
    if a is False:
        return b
    if b is False:
        return a
    if a is True or b is True:
        return True
    return z3.Or(a, b)


def zand(a, b):
    if a is True:
        return b
    if b is True:
        return a
    if a is False or b is False:
        return False
    return z3.And(a, b)


def znot(a):
    if isinstance(a, bool):
        return not a
    return z3.Not(a)


def zb(a):
    """python bool or BoolRef -> BoolRef"""
    if isinstance(a, (bool, np.bool_)):
        return TRUE if a else FALSE
    return a


def norm_bool(e):
    """BoolRef -> SBool or python bool when constant"""
    if isinstance(e, bool):
        return e
    e = core.simp(e)
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    k = by_range(e)
    if k is not None:
        return k
    return SBool(e)


def by_range(e):
    """truth of `input <cmp> constant` from the declared range, or None"""
    c = core.CTX
    if c is None or not c.ranges or not z3.is_app(e):
        return None
    k = e.decl().kind()
    if k == z3.Z3_OP_NOT:
        r = by_range(e.arg(0))
        return None if r is None else not r
    if k not in (z3.Z3_OP_EQ, z3.Z3_OP_LE, z3.Z3_OP_GE):
        return None
    a, b = e.arg(0), e.arg(1)
    if z3.is_int_value(a) or z3.is_rational_value(a):
        a, b = b, a
        k = {z3.Z3_OP_LE: z3.Z3_OP_GE, z3.Z3_OP_GE: z3.Z3_OP_LE}.get(k, k)
    if not (z3.is_int_value(b) or z3.is_rational_value(b)):
        return None
    if a.decl().kind() == z3.Z3_OP_TO_REAL:
        a = a.arg(0)
    r = c.ranges.get(a.get_id())
    if r is None:
        return None
    lo, hi = r[:2]
    v = core.z3num_to_frac(b)
    below, above = lo is not None and v < lo, hi is not None and v > hi
    if k == z3.Z3_OP_EQ:
        return False if below or above else None
    if k == z3.Z3_OP_LE:
        return False if below else True if above or v == hi else None
    return False if above else True if below or v == lo else None


class SVal:
    __slots__ = ()
    __array_priority__ = 1000

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        from . import arr
        return arr.ufunc_dispatch(ufunc, method, inputs, kw)

    def __array_function__(self, func, types, args, kw):
        from . import npshim
        return npshim.dispatch(func, args, kw)

    # numpy-scalar like attributes used by array code
    @property
    def shape(self):
        if self.__dict_py():
            raise AttributeError('shape')
        return ()

    @property
    def ndim(self):
        if self.__dict_py():
            raise AttributeError('ndim')
        return 0

    @property
    def size(self):
        if self.__dict_py():
            raise AttributeError('size')
        return 1

    def __dict_py(self):
        return getattr(self, 'py', False)

    def item(self):
        return to_py(self)

    def astype(self, dt):
        from . import arr
        return arr.cast_elem(self, np.dtype(arr.dt_of(dt)))

    def copy(self):
        return self

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self


class SBool(SVal):
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = e

    def __bool__(self):
        return ctx().decide(self.e)

    def __and__(self, o):
        if not isinstance(o, (bool, np.bool_, SBool)):
            return as_int(self) & o
        return norm_bool(z3.And(self.e, zb(bexpr(o))))
    __rand__ = __and__

    def __or__(self, o):
        if not isinstance(o, (bool, np.bool_, SBool)):
            return as_int(self) | o
        return norm_bool(z3.Or(self.e, zb(bexpr(o))))
    __ror__ = __or__

    def __xor__(self, o):
        return norm_bool(z3.Xor(self.e, zb(bexpr(o))))
    __rxor__ = __xor__

    def __invert__(self):
        return norm_bool(z3.Not(self.e))

    def logical_not(self):
        return norm_bool(z3.Not(self.e))

    def __eq__(self, o):
        if isinstance(o, (bool, np.bool_, SBool)):
            return norm_bool(self.e == zb(bexpr(o)))
        return as_int(self) == o

    def __ne__(self, o):
        r = self == o
        if isinstance(r, SBool):
            return ~r
        return not r

    def __hash__(self):
        return hash(bool(self))

    def __index__(self):
        return int(bool(self))

    def __int__(self):
        return int(bool(self))

    def __float__(self):
        return float(bool(self))

    def __repr__(self):
        return 'SBool(%s)' % self.e

    def any(self, *a, **k):
        return self

    def all(self, *a, **k):
        return self

    def __format__(self, spec):
        return '<sym>'

    def __array_wrap__(self, a):
        return a


def bexpr(x):
    """truth value as z3 Bool / python bool (no fork)"""
    if isinstance(x, SBool):
        return x.e
    if isinstance(x, (bool, np.bool_)):
        return bool(x)
    if isinstance(x, SInt):
        return x.e != 0
    if isinstance(x, SFlt):
        return zor(x.n, x.v != 0)
    if isinstance(x, z3.BoolRef):
        return x
    return bool(x)


def as_int(x):
    if isinstance(x, SBool):
        return SInt(z3.If(x.e, z3.IntVal(1), z3.IntVal(0)))
    if isinstance(x, np.ndarray) and x.ndim == 0:
        x = x[()]
    return x


def is_sym(x):
    return isinstance(x, (SBool, SInt, SFlt))


def is_num(x):
    return isinstance(x, (SVal, numbers.Number, np.generic)) and not \
        isinstance(x, (complex, np.complexfloating, np.datetime64))


class SNum(SVal):
    __slots__ = ()

    def __add__(self, o): return binop('add', self, o)
    def __radd__(self, o): return binop('add', o, self)
    def __sub__(self, o): return binop('sub', self, o)
    def __rsub__(self, o): return binop('sub', o, self)
    def __mul__(self, o): return binop('mul', self, o)
    def __rmul__(self, o): return binop('mul', o, self)
    def __truediv__(self, o): return binop('div', self, o)
    def __rtruediv__(self, o): return binop('div', o, self)
    def __floordiv__(self, o): return binop('floordiv', self, o)
    def __rfloordiv__(self, o): return binop('floordiv', o, self)
    def __mod__(self, o): return binop('mod', self, o)
    def __rmod__(self, o):
        if isinstance(o, str):
            return NotImplemented
        return binop('mod', o, self)

    def __divmod__(self, o):
        return self // o, self % o

    def __rdivmod__(self, o):
        return o // self, o % self

    def __pow__(self, o, m=None): return binop('pow', self, o)
    def __rpow__(self, o): return binop('pow', o, self)
    def __lt__(self, o): return cmpop('lt', self, o)
    def __le__(self, o): return cmpop('le', self, o)
    def __gt__(self, o): return cmpop('gt', self, o)
    def __ge__(self, o): return cmpop('ge', self, o)
    def __eq__(self, o): return cmpop('eq', self, o)
    def __ne__(self, o): return cmpop('ne', self, o)

    def __neg__(self): return neg(self)
    def __pos__(self): return self
    def __abs__(self): return absolute(self)
    def __floor__(self): return to_int(floor_(self))
    def __ceil__(self): return to_int(ceil_(self))
    def __trunc__(self): return to_int(self)
    def __round__(self, nd=None): return py_round(self, nd)

    def __format__(self, spec):
        return '<sym>'

    # object-array ufunc fallbacks
    def sqrt(self): return sqrt_(self)
    def log(self): return log_(self)
    def exp(self): return exp_(self)
    def floor(self): return floor_(self)
    def ceil(self): return ceil_(self)
    def rint(self): return rint_(self)
    def arctan(self): return arctan_(self)

    def is_integer(self):
        return self == floor_(self)

    def any(self, *a, **k):
        return norm_bool(zb(bexpr(self)))
    all = any

    def max(self, *a, **k): return self
    def min(self, *a, **k): return self
    def sum(self, *a, **k): return self
    def mean(self, *a, **k): return self
    @property
    def real(self): return self

    def conjugate(self):
        return self


class SInt(SNum):
    __slots__ = ('e', 'py')

    def __init__(self, e, py=False):
        self.e = e
        self.py = py

    def __bool__(self):
        return ctx().decide(self.e != 0)

    def __index__(self):
        return ctx().concretize(self.e)

    def __int__(self):
        return ctx().concretize(self.e)

    def __hash__(self):
        return hash(ctx().concretize(self.e))

    def __float__(self):
        return float(ctx().concretize(self.e))

    def __invert__(self):
        return -self - 1

    def __and__(self, o):
        return int(self) & int(o)
    __rand__ = __and__

    def __or__(self, o):
        return int(self) | int(o)
    __ror__ = __or__

    def __lshift__(self, o):
        return self * (2 ** int(o))

    def __rshift__(self, o):
        return self // (2 ** int(o))

    def __repr__(self):
        return 'SInt(%s)' % self.e

    def bit_length(self):
        return int(self).bit_length()


class SFlt(SNum):
    __slots__ = ('n', 'v', 'py')

    def __init__(self, v, n=False, py=False):
        self.v = v
        self.n = n
        self.py = py

    def __bool__(self):
        return ctx().decide(zb(zor(self.n, self.v != 0)))

    def __float__(self):
        c = const_of(self)
        if c is not None:
            return c
        raise Unsupported('float() of a symbolic value in native code')

    def __int__(self):
        return int(to_int(self))

    def __hash__(self):
        raise Unsupported('hash of a symbolic float')

    def __repr__(self):
        return 'SFlt(%s%s)' % (self.v, '' if self.n is False else
                               ', nan=%s' % self.n)


def const_of(x):
    """Python float if x is constant, else None"""
    n = x.n
    if not isinstance(n, bool):
        n = core.simp(n)
        if z3.is_true(n):
            return float('nan')
        if not z3.is_false(n):
            return None
    elif n:
        return float('nan')
    v = core.simp(x.v)
    if z3.is_rational_value(v):
        return float(Fraction(v.numerator_as_long(),
                              v.denominator_as_long()))
    return None


def rv(fr):
    if fr.denominator == 1:
        return z3.RealVal(fr.numerator)
    return z3.Q(fr.numerator, fr.denominator)


def isnanc(x):
    return isinstance(x, (float, np.floating)) and x != x


def isinfc(x):
    return isinstance(x, (float, np.floating)) and not math.isnan(x) \
        and math.isinf(x)


def to_flt(x):
    """any real scalar (not inf) -> SFlt"""
    if isinstance(x, SFlt):
        return x
    if isinstance(x, SInt):
        return SFlt(z3.ToReal(x.e), False, x.py)
    if isinstance(x, SBool):
        return SFlt(z3.If(x.e, z3.RealVal(1), z3.RealVal(0)))
    if isinstance(x, (float, np.floating)):
        if x != x:
            return SFlt(z3.RealVal(0), True, not isinstance(x, np.generic))
        if math.isinf(x):
            raise Unsupported('infinite constant meets a symbolic value')
        return SFlt(rv(frac(x)), False, not isinstance(x, np.floating) or
                    type(x) is float)
    if isinstance(x, (bool, np.bool_)):
        return SFlt(z3.RealVal(int(x)))
    if isinstance(x, (int, np.integer)):
        return SFlt(z3.RealVal(int(x)), False, isinstance(x, int))
    if isinstance(x, Fraction):
        return SFlt(rv(x))
    if isinstance(x, np.ndarray) and x.ndim == 0:
        return to_flt(x[()])
    raise Unsupported('cannot lift %r' % type(x))


def iexpr(x):
    if isinstance(x, SInt):
        return x.e
    if isinstance(x, SBool):
        return z3.If(x.e, z3.IntVal(1), z3.IntVal(0))
    return z3.IntVal(int(x))


def is_intlike(x):
    return isinstance(x, (SInt, SBool, int, np.integer, np.bool_))


def is_py(x):
    """is x a plain Python number (ZeroDivisionError semantics)?"""
    if isinstance(x, (SInt, SFlt)):
        return x.py
    if isinstance(x, np.generic):
        return False
    return isinstance(x, (int, float, bool))


def rounded(r):
    """float result hook: exact real unless the rounding mode is on"""
    c = core.CTX
    if c is None or c.rounding is None:
        return r
    return c.rounding(r)


PYOP = {
    'add': lambda a, b: a + b, 'sub': lambda a, b: a - b,
    'mul': lambda a, b: a * b, 'div': lambda a, b: a / b,
    'floordiv': lambda a, b: a // b, 'mod': lambda a, b: a % b,
    'pow': lambda a, b: a ** b,
    'lt': lambda a, b: a < b, 'le': lambda a, b: a <= b,
    'gt': lambda a, b: a > b, 'ge': lambda a, b: a >= b,
    'eq': lambda a, b: a == b, 'ne': lambda a, b: a != b}


def bad_operand(x):
    return not is_num(x)


def unwrap0(x):
    if isinstance(x, np.ndarray) and x.ndim == 0:
        return x[()]
    return x


def binop(op, a, b):
    """a op b on scalars, at least one symbolic (or arrays: defer)"""
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        from . import arr
        return arr.elementwise(op, a, b)
    if bad_operand(a) or bad_operand(b):
        return NotImplemented
    return scalar_binop(op, a, b)


def scalar_binop(op, a, b):
    if not (is_sym(a) or is_sym(b)):
        with np.errstate(all='ignore'):
            return PYOP[op](a, b)
    if op == 'pow':
        return power(a, b)
    py = is_py(a) and is_py(b)
    if isinfc(a) or isinfc(b):
        return inf_binop(op, a, b)
    if is_intlike(a) and is_intlike(b):
        ea, eb = iexpr(a), iexpr(b)
        if op == 'add':
            return mk_int(ea + eb, py)
        if op == 'sub':
            return mk_int(ea - eb, py)
        if op == 'mul':
            return mk_int(ea * eb, py)
        if op in ('floordiv', 'mod'):
            return int_divmod(op, a, b, ea, eb, py)
    x, y = to_flt(a), to_flt(b)
    n = zor(x.n, y.n)
    if n is True:
        return np.float64('nan')
    if op == 'add':
        return mk_flt(rounded(x.v + y.v), n, py)
    if op == 'sub':
        return mk_flt(rounded(x.v - y.v), n, py)
    if op == 'mul':
        return mk_flt(rounded(product(x.v, y.v)), n, py)
    if op == 'div':
        return divide(x, y, n, py)
    if op == 'floordiv':
        q = divide(x, y, n, py)
        return floor_(q)
    if op == 'mod':
        q = divide(x, y, n, py)
        if not is_sym(q):
            return np.float64('nan')
        f = floor_(q)
        return scalar_binop('sub', x, scalar_binop('mul', y, f))
    raise Unsupported('operator ' + op)


def leaves(e, n):
    """number of cases of a nested If, counted up to n"""
    if n <= 0 or not z3.is_app_of(e, z3.Z3_OP_ITE):
        return 1
    a = leaves(e.arg(1), n - 1)
    return a + leaves(e.arg(2), n - a)


def irange(e, depth=12):
    """(low, high) the integer term surely lies between; None: unknown"""
    if z3.is_int_value(e) or z3.is_rational_value(e):
        v = core.z3num_to_frac(e)
        return v, v
    c = core.CTX
    none = (None, None)
    if c is None or depth <= 0 or not z3.is_app(e):
        return none
    r = c.ranges.get(e.get_id())
    if r is not None:
        return r[:2]
    k = e.decl().kind()
    if k in (z3.Z3_OP_TO_REAL, z3.Z3_OP_UMINUS, z3.Z3_OP_ADD, z3.Z3_OP_SUB,
             z3.Z3_OP_MUL, z3.Z3_OP_ITE):
        a = [irange(x, depth - 1) for x in e.children()[
            1 if k == z3.Z3_OP_ITE else 0:]]
        if k == z3.Z3_OP_TO_REAL:
            return a[0]
        if k == z3.Z3_OP_ITE:
            los, his = [x[0] for x in a], [x[1] for x in a]
            return (None if None in los else min(los),
                    None if None in his else max(his))
        if any(None in x for x in a):
            return none
        if k == z3.Z3_OP_UMINUS:
            return -a[0][1], -a[0][0]
        lo, hi = a[0]
        for x, y in a[1:]:
            if k == z3.Z3_OP_ADD:
                lo, hi = lo + x, hi + y
            elif k == z3.Z3_OP_SUB:
                lo, hi = lo - y, hi - x
            else:
                q = [lo * x, lo * y, hi * x, hi * y]
                lo, hi = min(q), max(q)
        return lo, hi
    if k == z3.Z3_OP_MOD and z3.is_int_value(e.arg(1)):
        return 0, abs(e.arg(1).as_long()) - 1
    return none


def within(e, lo, hi):
    """does the integer term surely lie between lo and hi?"""
    a, b = irange(e)
    if a is not None and b is not None and lo <= a and b <= hi:
        return True
    return not ctx().feasible(z3.Or(e < lo, e > hi))


def limits(dt):
    """what an integer type can hold"""
    n = 8 * dt.itemsize
    return (0, 2 ** n - 1) if dt.kind == 'u' else (
        -2 ** (n - 1), 2 ** (n - 1) - 1)


def wrap_int(x, dt):
    """an integer as the type holds it: too large a value starts again from
    the other end"""
    if dt.itemsize >= 8 and dt.kind == 'i':
        return x                # (64 bits: taken as enough)
    lo, hi = limits(dt)
    if not is_sym(x):
        v = (int(x) - lo) % (hi - lo + 1) + lo
        return np.int64(v) if v < 2 ** 63 else v
    if not isinstance(x, SInt) or within(x.e, lo, hi):
        return x
    return mk_int((x.e - lo) % (hi - lo + 1) + lo)


def clamp_int(x, dt):
    """an integer as GDAL stores it: the nearest the type can hold"""
    lo, hi = limits(dt)
    if not is_sym(x):
        return np.int64(min(max(int(x), lo), hi)) if dt.itemsize < 8 else x
    if not isinstance(x, SInt) or within(x.e, lo, hi):
        return x
    return mk_int(z3.If(x.e < lo, z3.IntVal(lo), z3.If(
        x.e > hi, z3.IntVal(hi), x.e)))


def product(a, b):
    """a * b; of cases and an unknown: the cases of the products, so that
    factors put together in another order still look alike"""
    if z3.is_app_of(a, z3.Z3_OP_ITE):
        a, b = b, a
    if z3.is_rational_value(a) or z3.is_app_of(a, z3.Z3_OP_ITE) or \
            not z3.is_app_of(b, z3.Z3_OP_ITE) or leaves(b, 6) > 5 or \
            z3.is_rational_value(core.simp(a)):
        return a * b

    def into(e):
        if z3.is_app_of(e, z3.Z3_OP_ITE):
            return z3.If(e.arg(0), into(e.arg(1)), into(e.arg(2)))
        return a * e
    return into(b)


def int_divmod(op, a, b, ea, eb, py):
    c = ctx()
    if not is_sym(b):
        d = int(b)
        if d == 0:
            if py:
                raise ZeroDivisionError('integer division or modulo by zero')
            return 0
        neg_ = d < 0
    else:
        if c.decide(eb == 0):
            if py:
                raise ZeroDivisionError('integer division or modulo by zero')
            return 0
        neg_ = c.decide(eb < 0)
        if c.few(eb, 8):
            # case by case: a quotient by an unknown is not linear
            eb = z3.IntVal(c.concretize(eb))
    if neg_:
        ea, eb = -ea, -eb
    q = ea / eb           # z3: floor for a positive divisor
    if op == 'floordiv':
        return mk_int(q, py)
    r = ea - q * eb
    return mk_int(-r if neg_ else r, py)


def guard_maybe(e):
    """under the current guard (masked elementwise op) may e hold?"""
    c = ctx()
    if c.guard is not None:
        g = z3.And(zb(c.guard), e)
        if not c.feasible(g):
            return False
        # decide whether the element is selected at all
        if not c.decide(zb(c.guard)):
            return None
    return c.decide(e)


def divide(x, y, n, py):
    z = core.simp(y.v)
    if z3.is_rational_value(z):
        zero = (z.numerator_as_long() == 0)
        if zero and y.n is not False:
            zero = True
    else:
        zero = guard_maybe(z3.And(zb(znot(n)) if n is not False else TRUE,
                                  y.v == 0))
        if zero is None:
            return np.float64(0.0)
    if zero:
        if n is not False and n is not True:
            # the divisor value is meaningless where it is nan
            if ctx().decide(zb(n)):
                return np.float64('nan')
        if py:
            raise ZeroDivisionError('float division by zero')
        if ctx().decide(x.v == 0):
            return np.float64('nan')
        return np.float64('inf') if ctx().decide(x.v > 0) else \
            np.float64('-inf')
    if n is not False and not z3.is_rational_value(z):
        # keep the quotient total where the divisor is meaningless
        return mk_flt(rounded(x.v / z3.If(zb(n), z3.RealVal(1), y.v)), n, py)
    return mk_flt(rounded(x.v / y.v), n, py)


def inf_binop(op, a, b):
    """one operand is +-inf (concrete), the other symbolic"""
    c = ctx()
    if isinfc(a):
        inf, s, left = float(a), to_flt(b), True
    else:
        inf, s, left = float(b), to_flt(a), False
    if s.n is not False:
        if s.n is True or c.decide(zb(s.n)):
            return np.float64('nan')
    if op == 'add':
        return np.float64(inf)
    if op == 'sub':
        return np.float64(inf if left else -inf)
    if op == 'mul':
        if c.decide(s.v == 0):
            return np.float64('nan')
        return np.float64(inf if c.decide(s.v > 0) else -inf)
    if op == 'div':
        if not left:
            return np.float64(0.0)
        return np.float64(inf if c.decide(s.v >= 0) else -inf)
    raise Unsupported('inf in ' + op)


def mk_int(e, py=False):
    e = core.simp(e)
    if z3.is_int_value(e):
        v = e.as_long()
        return v if py else np.int64(v)
    return SInt(e, py)


def mk_flt(v, n=False, py=False):
    if n is True:
        return np.float64('nan')
    if not isinstance(n, bool):
        n = core.simp(n)
        if z3.is_true(n):
            return np.float64('nan')
        if z3.is_false(n):
            n = False
    return SFlt(v, n, py)


def cmpop(op, a, b):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        from . import arr
        return arr.elementwise(op, a, b)
    if b is None or isinstance(b, (str, bytes, tuple, list, dict)):
        if op == 'eq':
            return False
        if op == 'ne':
            return True
        return NotImplemented
    if bad_operand(a) or bad_operand(b):
        return NotImplemented
    return scalar_cmp(op, a, b)


def scalar_cmp(op, a, b):
    if not (is_sym(a) or is_sym(b)):
        return bool(PYOP[op](a, b))
    if isinfc(a) or isinfc(b):
        if isinfc(a):
            s, pos, left = to_flt(b), a > 0, True
        else:
            s, pos, left = to_flt(a), b > 0, False
        nn = znot(s.n)
        if op == 'eq':
            return False
        if op == 'ne':
            return True
        less = op in ('lt', 'le')
        t = (less and pos and not left) or (less and not pos and left) or \
            (not less and pos and left) or (not less and not pos and not left)
        return norm_bool(nn) if t else False
    if is_intlike(a) and is_intlike(b):
        x, y, n = iexpr(a), iexpr(b), False
    else:
        fa, fb = to_flt(a), to_flt(b)
        x, y, n = fa.v, fb.v, zor(fa.n, fb.n)
    e = {'lt': lambda: x < y, 'le': lambda: x <= y, 'gt': lambda: x > y,
         'ge': lambda: x >= y, 'eq': lambda: x == y,
         'ne': lambda: x != y}[op]()
    if op == 'ne':
        return norm_bool(zor(n, e))
    return norm_bool(zand(znot(n), e))


def neg(x):
    if not is_sym(x):
        return -x
    if isinstance(x, SInt):
        return mk_int(-x.e, x.py)
    if isinstance(x, SBool):
        return mk_int(-iexpr(x))
    return SFlt(-x.v, x.n, x.py)


def absolute(x):
    if not is_sym(x):
        return abs(x)
    if isinstance(x, SInt):
        return mk_int(z3.If(x.e >= 0, x.e, -x.e), x.py)
    if isinstance(x, SBool):
        return x
    return SFlt(z3.If(x.v >= 0, x.v, -x.v), x.n, x.py)


def _floor_int(v):
    """z3 Int k with k <= v < k+1, for a z3 Real v"""
    v = core.simp(v)
    if z3.is_rational_value(v):
        return z3.IntVal(math.floor(Fraction(v.numerator_as_long(),
                                             v.denominator_as_long())))
    if z3.is_app(v) and v.decl().kind() == z3.Z3_OP_TO_REAL:
        return v.children()[0]
    c = ctx()
    key = ('fl', v.get_id())
    if key in c.aux:
        return c.aux[key]
    k = c.fresh('fl', z3.IntSort())
    c.keep.append(v)
    c.define(z3.And(z3.ToReal(k) <= v, v < z3.ToReal(k) + 1))
    c.aux[key] = k
    return k


def floor_(x):
    if not is_sym(x):
        return np.floor(x)
    if isinstance(x, (SInt, SBool)):
        return to_flt(x)
    return SFlt(z3.ToReal(_floor_int(x.v)), x.n)


def ceil_(x):
    if not is_sym(x):
        return np.ceil(x)
    if isinstance(x, (SInt, SBool)):
        return to_flt(x)
    return SFlt(z3.ToReal(-_floor_int(core.simp(-x.v))), x.n)


def rint_int(v):
    f = _floor_int(core.simp(v + z3.Q(1, 2)))
    if z3.is_int_value(f) and z3.is_rational_value(core.simp(v)):
        w = core.simp(v)
        return z3.IntVal(round(Fraction(w.numerator_as_long(),
                                        w.denominator_as_long())))
    tie = z3.ToReal(f) == v + z3.Q(1, 2)
    return z3.If(z3.And(tie, f % 2 != 0), f - 1, f)


def rint_(x):
    if not is_sym(x):
        return np.rint(x)
    if isinstance(x, (SInt, SBool)):
        return to_flt(x)
    return SFlt(z3.ToReal(rint_int(x.v)), x.n)


def trunc_(x):
    if not is_sym(x):
        return np.trunc(x)
    if isinstance(x, (SInt, SBool)):
        return to_flt(x)
    return SFlt(z3.ToReal(_trunc_int(x.v)), x.n)


def _trunc_int(v):
    v = core.simp(v)
    if z3.is_app(v) and v.decl().kind() == z3.Z3_OP_TO_REAL:
        return v.children()[0]
    if z3.is_rational_value(v):
        return z3.IntVal(math.trunc(Fraction(v.numerator_as_long(),
                                             v.denominator_as_long())))
    return z3.If(v >= 0, _floor_int(v), -_floor_int(core.simp(-v)))


def to_int(x, py=True):
    """int(x)"""
    if isinstance(x, SInt):
        return SInt(x.e, py)
    if isinstance(x, SBool):
        return mk_int(iexpr(x), py)
    if isinstance(x, SFlt):
        if x.n is not False:
            if x.n is True or ctx().decide(zb(x.n)):
                raise ValueError('cannot convert float NaN to integer')
        return mk_int(_trunc_int(x.v), py)
    return int(x)


def py_round(x, nd=None):
    if isinstance(x, SInt):
        return x
    if nd is None:
        if x.n is not False and ctx().decide(zb(x.n)):
            raise ValueError('cannot convert float NaN to integer')
        return mk_int(rint_int(x.v), True)
    nd = int(nd)
    s = Fraction(10) ** nd
    k = rint_int(core.simp(x.v * rv(s)))
    return SFlt(z3.ToReal(k) / rv(s), x.n, x.py)


def around_(x, nd=0):
    if not is_sym(x):
        return np.around(x, nd)
    if isinstance(x, SInt):
        return x
    if nd == 0:
        return rint_(x)
    return py_round(x, nd)


def power(a, b):
    if not is_sym(b):
        if isinstance(b, (float, np.floating)) and float(b).is_integer():
            bi = int(b)
        elif is_intlike(b):
            bi = int(b)
        elif float(b) == 0.5:
            return sqrt_(to_flt(a))
        elif float(b) == -0.5:
            return scalar_binop('div', 1.0, sqrt_(to_flt(a)))
        else:
            bi = None
        if bi is not None and abs(bi) <= 8:
            intres = is_intlike(a) and is_intlike(b) and bi >= 0
            if bi == 0:
                return 1 if intres else np.float64(1.0)
            r = a if intres else to_flt(a)
            base = r
            for _ in range(abs(bi) - 1):
                r = scalar_binop('mul', r, base)
            if bi < 0:
                one = 1.0 if is_py(a) else np.float64(1.0)
                return scalar_binop('div', one, r)
            return r
    return uf('POW', a, b)


# -- algebraic / transcendental functions ------------------------------
def uf(name, *args):
    """uninterpreted real function, congruent and replayable"""
    fs = [to_flt(a) for a in args]
    n = False
    for f in fs:
        n = zor(n, f.n)
    F = z3.Function(name, *([z3.RealSort()] * (len(fs) + 1)))
    c = ctx()
    t = F(*[core.simp(f.v) for f in fs])
    c.nl = True
    return mk_flt(t, n)


def sqrt_(x):
    if not is_sym(x):
        with np.errstate(all='ignore'):
            return np.sqrt(x)
    x = to_flt(x)
    c = ctx()
    v = core.simp(x.v)
    key = ('sqrt', v.get_id())
    if key not in c.aux:
        s = c.fresh('sqrt', z3.RealSort())
        c.keep.append(v)
        c.define(z3.And(s >= 0, z3.Implies(v >= 0, s * s == v),
                        z3.Implies(v < 0, s == 0)))
        c.aux[key] = s
    return mk_flt(c.aux[key], zor(x.n, v < 0))


def hypot_(a, b):
    if not (is_sym(a) or is_sym(b)):
        return np.hypot(a, b)
    a, b = to_flt(a), to_flt(b)
    return sqrt_(SFlt(a.v * a.v + b.v * b.v, zor(a.n, b.n)))


def log_(x):
    if not is_sym(x):
        with np.errstate(all='ignore'):
            return np.log(x)
    x = to_flt(x)
    if x.n is not False and ctx().decide(zb(x.n)):
        return np.float64('nan')
    if guard_maybe(x.v == 0):
        return np.float64('-inf')
    if guard_maybe(x.v < 0):
        return np.float64('nan')
    t = uf('LOG', x)
    c = ctx()
    for p, lo, hi in LOGPTS:
        c.define(z3.Implies(x.v >= rv(p), t.v >= rv(lo)))
        c.define(z3.Implies(x.v <= rv(p), t.v <= rv(hi)))
    return t


LOGPTS = []
for _p in ('0.0001', '0.0003', '0.001', '0.01', '0.1', '0.5', '1', '2', '3',
           '4', '5', '10', '100'):
    _f = Fraction(_p)
    _l = Fraction(repr(math.log(float(_f))))
    LOGPTS.append((_f, _l - Fraction(1, 10 ** 12),
                   _l + Fraction(1, 10 ** 12)))


def exp_(x):
    if not is_sym(x):
        return np.exp(x)
    t = uf('EXP', x)
    ctx().define(t.v > 0)
    return t


PI = Fraction('3.14159265358979323846264338327950288')


def arctan_(x):
    """ATAN with enough axioms to compare with thresholds: monotone at the
    tangents of a table of angles."""
    if not is_sym(x):
        return np.arctan(x)
    if isinfc(x):
        return np.arctan(x)
    x = to_flt(x)
    t = uf('ATAN', x)
    c = ctx()
    key = ('atan', t.v.get_id())
    if key not in c.aux:
        c.aux[key] = t.v
        c.keep.append(t.v)
        h = rv(PI / 2)
        c.define(z3.And(t.v > -h, t.v < h))
        c.define(z3.And((x.v > 0) == (t.v > 0), (x.v < 0) == (t.v < 0)))
        for a, tn in TANPTS:
            c.define((x.v >= rv(tn)) == (t.v >= rv(a)))
    return t


TANPTS = []
for _d in ('3.27', '12.3', '22.5', '45', '67.5', '-3.27', '-12.3', '-22.5',
           '-45', '-67.5', '1', '5', '20', '30', '60', '80'):
    _a = Fraction(_d) * PI / 180
    TANPTS.append((_a, Fraction(repr(math.tan(float(_a))))))


# octant boundaries used by arctan2: angle (deg) and direction vector
_T = Fraction(repr(math.tan(math.pi / 8)))


def arctan2_(y, x):
    if not (is_sym(x) or is_sym(y)):
        return np.arctan2(y, x)
    y, x = to_flt(y), to_flt(x)
    t = uf('ATAN2', y, x)
    c = ctx()
    key = ('atan2', t.v.get_id())
    if key not in c.aux:
        c.aux[key] = t.v
        c.keep.append(t.v)
        pi = rv(PI)
        X, Y = x.v, y.v
        z = z3.And(X == 0, Y == 0)
        c.define(z3.Implies(z, t.v == 0))
        c.define(z3.And(t.v > -pi, t.v <= pi))
        nz = z3.Not(z)
        c.define(z3.Implies(nz, z3.And(
            (Y > 0) == z3.And(t.v > 0, t.v < pi),
            (Y < 0) == (t.v < 0),
            z3.And(Y == 0, X > 0) == (t.v == 0),
            z3.And(Y == 0, X < 0) == (t.v == pi))))
        # for an angle a in (0, pi): angle >= a  <=>  cross(dir(a), p) >= 0
        # within the closed upper half plane; mirrored for the lower one
        for deg in ATAN2_DEG:
            a = rv(Fraction(deg) * PI / 180)
            cs, sn = cos_sin(deg)
            cs, sn = rv(cs), rv(sn)
            up = z3.And(nz, Y >= 0)
            c.define(z3.Implies(up, (t.v >= a) == (cs * Y - sn * X >= 0)))
            lo = z3.And(nz, Y < 0)
            c.define(z3.Implies(lo, (t.v <= -a) == (-cs * Y - sn * X >= 0)))
            c.define(z3.Implies(lo, (t.v < -a) == (-cs * Y - sn * X > 0)))
            c.define(z3.Implies(up, (t.v > a) == (cs * Y - sn * X > 0)))
    return t


# with points just beside the sector borders: a direction away from a border
# has an angle away from it
ATAN2_DEG = ['22.49', '22.5', '22.51', '45', '67.49', '67.5', '67.51', '90',
             '112.49', '112.5', '112.51', '135', '157.49', '157.5', '157.51']


def cos_sin(deg):
    """direction of an angle, as the double nearest multiples (the exact
    axis/diagonal directions are exact)"""
    exact = {'45': (1, 1), '90': (0, 1), '135': (-1, 1)}
    if deg in exact:
        return tuple(Fraction(v) for v in exact[deg])
    a = math.radians(float(deg))
    if deg == '22.5':
        return Fraction(1), _T
    if deg == '67.5':
        return _T, Fraction(1)
    if deg == '112.5':
        return -_T, Fraction(1)
    if deg == '157.5':
        return Fraction(-1), _T
    return Fraction(repr(math.cos(a))), Fraction(repr(math.sin(a)))


def trig(name):
    def f(x):
        if not is_sym(x):
            return getattr(np, name)(x)
        return uf(name.upper(), x)
    return f


# -- selection ----------------------------------------------------------
def ite(c, a, b):
    """c ? a : b without forking"""
    if isinstance(c, SBool):
        e = c.e
    elif isinstance(c, z3.BoolRef):
        e = core.simp(c)
        if z3.is_true(e):
            return a
        if z3.is_false(e):
            return b
    else:
        if is_sym(c):
            e = zb(bexpr(c))
        else:
            return a if c else b
    a, b = unwrap0(a), unwrap0(b)
    if a is b:
        return a
    if isinstance(a, str) or isinstance(b, str):
        if isinstance(a, str) and isinstance(b, str) and a == b:
            return a
        return a if ctx().decide(e) else b
    bl = (bool, np.bool_, SBool)
    if isinstance(a, bl) and isinstance(b, bl):
        return norm_bool(z3.If(e, zb(bexpr(a)), zb(bexpr(b))))
    if is_intlike(a) and is_intlike(b):
        return mk_int(z3.If(e, iexpr(a), iexpr(b)), is_py(a) and is_py(b))
    if isinfc(a) or isinfc(b):
        return a if ctx().decide(e) else b
    x, y = to_flt(a), to_flt(b)
    if x.n is False and y.n is False:
        n = False
    else:
        n = z3.If(e, zb(x.n), zb(y.n))
    if x.n is True:
        v = y.v
    elif y.n is True:
        v = x.v
    else:
        v = x.v if z3.eq(x.v, y.v) else z3.If(e, x.v, y.v)
    return mk_flt(v, n, is_py(a) and is_py(b))


def isnan_(x):
    if isinstance(x, SFlt):
        return norm_bool(x.n) if not isinstance(x.n, bool) else x.n
    if isinstance(x, (SInt, SBool)):
        return False
    return bool(np.isnan(x))


def isfinite_(x):
    if isinstance(x, SFlt):
        return norm_bool(znot(x.n))
    if isinstance(x, (SInt, SBool)):
        return True
    return bool(np.isfinite(x))


def isinf_(x):
    if is_sym(x):
        return False
    return bool(np.isinf(x))


def np_max(a, b):
    """np.maximum: nan propagates"""
    if not (is_sym(a) or is_sym(b)):
        return np.maximum(a, b)
    if isinfc(a) or isinfc(b):
        i, s = (a, b) if isinfc(a) else (b, a)
        return ite(znot_b(isnan_(s)), i if i > 0 else s, np.float64('nan'))
    if is_intlike(a) and is_intlike(b):
        return ite(scalar_cmp('ge', a, b), a, b)
    x, y = to_flt(a), to_flt(b)
    return mk_flt(z3.If(x.v >= y.v, x.v, y.v), zor(x.n, y.n))


def np_min(a, b):
    if not (is_sym(a) or is_sym(b)):
        return np.minimum(a, b)
    if isinfc(a) or isinfc(b):
        i, s = (a, b) if isinfc(a) else (b, a)
        return ite(znot_b(isnan_(s)), s if i > 0 else i, np.float64('nan'))
    if is_intlike(a) and is_intlike(b):
        return ite(scalar_cmp('le', a, b), a, b)
    x, y = to_flt(a), to_flt(b)
    return mk_flt(z3.If(x.v <= y.v, x.v, y.v), zor(x.n, y.n))


def np_fmax(a, b):
    return ite(isnan_(a), b, ite(isnan_(b), a, np_max(nz(a), nz(b))))


def np_fmin(a, b):
    return ite(isnan_(a), b, ite(isnan_(b), a, np_min(nz(a), nz(b))))


def constants(e, n=40):
    """the values of a nested If over numbers, or None"""
    if z3.is_rational_value(e) or z3.is_int_value(e):
        return {core.z3num_to_frac(e)}
    if n <= 0 or not z3.is_app_of(e, z3.Z3_OP_ITE):
        return None
    a = constants(e.arg(1), n // 2)
    b = None if a is None else constants(e.arg(2), n - len(a))
    return None if b is None else a | b


def is_value(e, v):
    """condition under which a nested If over numbers is v"""
    if z3.is_app_of(e, z3.Z3_OP_ITE):
        a, b = is_value(e.arg(1), v), is_value(e.arg(2), v)
        if a is b:
            return a
        return norm_e(z3.If(e.arg(0), zb(a), zb(b)))
    return core.z3num_to_frac(e) == v


def norm_e(e):
    e = core.simp(e)
    return True if z3.is_true(e) else False if z3.is_false(e) else e


def extreme(kind, lst, skip_nan=False):
    """largest or smallest of a list; known numbers first"""
    f = dict(max=(np_max, np_fmax), min=(np_min, np_fmin))[kind][skip_nan]
    known = [x for x in lst if not is_sym(x)]
    few, rest = [], []
    for x in lst:
        if is_sym(x):
            v = constants(x.v) if isinstance(x, SFlt) else None
            (rest if v is None or len(v) > 12 else few).append(
                x if v is None else (x, v) if len(v) <= 12 else x)
    r = None
    for x in known:
        r = x if r is None else f(r, x)
    if len(few) < 2 and (r is None or not few):
        few, rest = [], [x for x, _ in few] + rest
    elif r is not None and (isinfc(r) or isnanc(r)):
        few, rest = [], [x for x, _ in few] + rest
    if few:
        vs = set()
        for _, v in few:
            vs |= v
        # from the least to the most wanted value
        out = None
        if r is not None:
            k = frac(r)
            vs = {v for v in vs if (v > k if kind == 'max' else v < k)}
            out = rv(k)
        for v in sorted(vs, reverse=kind == 'min'):
            c = False
            for x, _ in few:
                e = is_value(x.v, v)
                c = zor(c, zand(e, znot(x.n)) if skip_nan else e)
            out = rv(v) if out is None else z3.If(zb(c), rv(v), out)
        n = True if skip_nan else False
        for x, _ in few:
            n = zand(n, x.n) if skip_nan else zor(n, x.n)
        if skip_nan and r is not None:
            n = False
        r = mk_flt(out, n)
    for x in rest:
        r = x if r is None else f(r, x)
    return r


def nz(x):
    """drop the nan flag (value only meaningful where not nan)"""
    if isinstance(x, SFlt):
        return SFlt(x.v, False, x.py)
    if isnanc(x):
        return np.float64(0.0)
    return x


def znot_b(x):
    if isinstance(x, SBool):
        return ~x
    return not x


def py_max(args, key=None):
    """builtin max on symbolic scalars: ITE (first maximal element)"""
    r = args[0]
    for a in args[1:]:
        r = ite(scalar_cmp('gt', a, r), a, r)
    return r


def py_min(args, key=None):
    r = args[0]
    for a in args[1:]:
        r = ite(scalar_cmp('lt', a, r), a, r)
    return r


def to_py(x):
    if isinstance(x, SFlt):
        return SFlt(x.v, x.n, True)
    if isinstance(x, SInt):
        return SInt(x.e, True)
    if isinstance(x, np.generic):
        return x.item()
    return x


def fmod_(a, b):
    """C fmod / numexpr %"""
    if not (is_sym(a) or is_sym(b)):
        return np.fmod(a, b)
    q = scalar_binop('div', to_flt(a), to_flt(b))
    if not is_sym(q):
        return np.float64('nan')
    return scalar_binop('sub', a, scalar_binop('mul', b, trunc_(q)))
