"""Strings that contain formatted symbolic numbers."""
import z3

from . import vals as V
from .core import Unsupported, ctx
from .vals import SVal


class Num:
    """decimal rendering of a number, cut to its first n characters"""

    def __init__(self, x, n=None, spec=None):
        self.x, self.n, self.spec = x, n, spec


class SStr:
    def __init__(self, parts):
        out = []
        for p in parts:
            if isinstance(p, SStr):
                out.extend(p.parts)
            elif isinstance(p, str):
                if out and isinstance(out[-1], str):
                    out[-1] += p
                elif p:
                    out.append(p)
            else:
                out.append(p)
        self.parts = out

    def __add__(self, o):
        if not isinstance(o, (str, SStr)):
            raise TypeError('can only concatenate str')
        return SStr([self, o])

    def __radd__(self, o):
        if not isinstance(o, (str, SStr)):
            raise TypeError('can only concatenate str')
        return SStr([o, self])

    def __getitem__(self, i):
        if isinstance(i, slice) and i.start in (None, 0) and \
                i.step in (None, 1) and isinstance(i.stop, int) and \
                i.stop > 0 and len(self.parts) == 1:
            p = self.parts[0]
            if isinstance(p, Num):
                n = i.stop if p.n is None else min(p.n, i.stop)
                return SStr([Num(p.x, n, p.spec)])
        raise Unsupported('slicing a symbolic string')

    def __str__(self):
        return ''.join(p if isinstance(p, str) else '<sym>'
                       for p in self.parts)
    __repr__ = __str__

    def __format__(self, spec):
        return str(self)

    def __hash__(self):
        raise Unsupported('hash of a symbolic string')

    def __len__(self):
        raise Unsupported('length of a symbolic string')

    def __eq__(self, o):
        return may_equal(self, o)

    def __ne__(self, o):
        return V.znot_b(may_equal(self, o))

    def __getattr__(self, k):
        if k.startswith('__'):
            raise AttributeError(k)
        raise Unsupported('str.%s on a symbolic string' % k)


def may_equal(a, b):
    """necessary condition for equality of two renderings: numbers whose
    cut renderings agree differ by less than one unit of the last digit
    kept (renderings without exponent, |x| < 1000)"""
    if isinstance(b, str):
        b = SStr([b])
    if isinstance(a, str):
        a = SStr([a])
    if len(a.parts) != len(b.parts):
        raise Unsupported('comparison of differently built strings')
    e = True
    for p, q in zip(a.parts, b.parts):
        if isinstance(p, str) and isinstance(q, str):
            if p != q:
                return False
            continue
        if isinstance(p, str) or isinstance(q, str):
            raise Unsupported('comparison of differently built strings')
        e = V.zand(e, close(p, q))
    return V.norm_bool(e)


def close(p, q):
    x, y = V.to_flt(p.x).v, V.to_flt(q.x).v
    if isinstance(p.x, V.SInt) or V.is_intlike(p.x):
        if p.n is None and p.spec is None:
            return x == y
    dec = None
    if p.spec and p.spec[-1] in 'fF' and '.' in p.spec:
        dec = int(p.spec[p.spec.index('.') + 1:-1])
    elif p.spec:
        raise Unsupported('format spec %r' % p.spec)
    if dec is None and p.n is None:
        return x == y
    d = z3.If(x >= y, x - y, y - x)

    def unit(k):
        return z3.Q(1, 10 ** k) if k >= 0 else z3.RealVal(10 ** -k)
    if p.n is None:
        return d <= unit(dec)
    # n characters: sign, integer digits, point, decimals
    ax = z3.If(x >= 0, x, -x)
    sg = z3.If(x < 0, 1, 0)

    def bound(intd):
        k = p.n - intd - 1
        k2 = k - 1
        if dec is not None:
            k, k2 = min(k, dec), min(k2, dec)
        return z3.If(sg == 0, unit(k), unit(k2))
    return z3.And((x >= 0) == (y >= 0), d < z3.If(
        ax < 10, bound(1), z3.If(ax < 100, bound(2), bound(3))))


def symbolic(x):
    return isinstance(x, (SVal, SStr))


def sx_str(*a, **k):
    if a and isinstance(a[0], SStr):
        return a[0]
    if a and isinstance(a[0], SVal):
        if isinstance(a[0], V.SBool):
            return str(bool(a[0]))
        return SStr([Num(a[0])])
    return str(*a, **k)


def sx_repr(x):
    if isinstance(x, (SVal, SStr)):
        return sx_str(x)
    return repr(x)


def sx_fstr(*parts):
    sym = False
    out = []
    for p in parts:
        if isinstance(p, str):
            out.append(p)
            continue
        v, conv, spec = p
        if conv == ord('r'):
            v = sx_repr(v)
        elif conv == ord('s'):
            v = sx_str(v)
        if isinstance(v, SStr):
            sym = True
            out.append(v)
        elif isinstance(v, V.SBool):
            out.append(str(bool(v)))
        elif isinstance(v, SVal):
            sym = True
            out.append(SStr([Num(v, None, str(spec) or None)]))
        else:
            out.append(format(v, str(spec)))
    return SStr(out) if sym else ''.join(out)


def sx_strformat(fmt, *args, **kw):
    if not any(symbolic(a) for a in args) and not any(
            symbolic(a) for a in kw.values()):
        return fmt.format(*args, **kw)
    import string
    out, auto = [], 0
    for lit, field, spec, conv in string.Formatter().parse(fmt):
        out.append(lit)
        if field is None:
            continue
        if field == '':
            v = args[auto]
            auto += 1
        elif field.isdigit():
            v = args[int(field)]
        elif field in kw:
            v = kw[field]
        else:
            v, _ = string.Formatter().get_field(field, args, kw)
        out.append((v, ord(conv) if conv else -1, spec or ''))
    return sx_fstr(*out)


def sx_strmod(fmt, args):
    if not isinstance(fmt, str):
        return fmt % args
    tup = args if isinstance(args, tuple) else (args,)
    if isinstance(args, dict) or not any(symbolic(a) for a in tup):
        return fmt % args
    import re
    out, k = [], 0
    pos = 0
    for m in re.finditer(r'%(%|[-#0 +]*\d*(?:\.\d+)?[a-zA-Z])', fmt):
        out.append(fmt[pos:m.start()])
        pos = m.end()
        s = m.group(1)
        if s == '%':
            out.append('%')
            continue
        v = tup[k]
        k += 1
        if symbolic(v):
            if s[-1] == 's':
                out.append((v, ord('s'), ''))
            elif s[-1] == 'r':
                out.append((v, ord('r'), ''))
            elif s[-1] in 'di':
                out.append((V.to_int(v), -1, ''))
            elif s[-1] == 'f' and '.' not in s:
                out.append((v, -1, '.6f'))
            else:
                out.append((v, -1, s))
        else:
            out.append(m.group(0) % v)
    out.append(fmt[pos:])
    if k != len(tup):
        raise TypeError('not all arguments converted during string '
                        'formatting')
    return sx_fstr(*out)


def sx_join(sep, parts):
    parts = list(parts)
    if not any(isinstance(p, SStr) for p in parts):
        return sep.join(parts)
    out = []
    for i, p in enumerate(parts):
        if not isinstance(p, (str, SStr)):
            raise TypeError('sequence item %d: expected str instance' % i)
        out += [sep, p] if i else [p]
    return SStr(out)
