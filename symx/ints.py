"""Symbolic Python integers (unbounded semantics, exact).

LinInt ('int' mode): linear form over z3 Int atoms, with interval.
BvInt  ('bv' mode):  signed bit vector just wide enough for its interval."""
import math
import z3
from .core import E, SymBool, mk_bool, bexpr, Unsupported, b_and, b_or


class SymInt:
    __slots__ = ('tag',)        # provenance: ('cell', x, shift) | ('tab', Table, index) | None

    # -- python protocol fall-backs (native code asked for a real integer)
    def __index__(self):
        return E.concretize(self, 64, 'an integer used by native code')

    __int__ = __index__
    __trunc__ = __index__

    def __hash__(self):
        return hash(E.concretize(self, 16, 'an integer used as hash key'))

    def __bool__(self):
        r = (self != 0)
        return r if isinstance(r, bool) else E.branch(r.e)

    def __float__(self):
        return float(E.pin([self], 'float of a symbolic int')[0])

    def __truediv__(self, o):
        x, y = E.pin([self, o], 'true division of a symbolic int')
        return x / y

    def __rtruediv__(self, o):
        x, y = E.pin([self, o], 'true division by a symbolic int')
        return y / x

    def __pos__(self):
        return self

    def __abs__(self):
        return -self if self < 0 else self

    def __divmod__(self, o):
        return self // o, self % o

    def __repr__(self):
        return '<sym %s>' % self.z()

    __str__ = __repr__

    def bit_length(self):
        n, v = 0, 1
        while not self < v:
            n += 1
            v <<= 1
        return n

    def to_bytes(self, length=1, byteorder='big', signed=False):
        from .ropes import int_to_cells
        if signed:
            raise Unsupported('signed to_bytes')
        if not b_and(self >= 0, self < (1 << (8 * length))):
            raise OverflowError('int too big to convert')
        return int_to_cells(self, length, byteorder)


# ---------------------------------------------------------------- linear mode
_ATOMS = {}     # id -> (expr, lo, hi)


def _atom(e, lo=None, hi=None):
    i = e.get_id()
    a = _ATOMS.get(i)
    if a is None:
        _ATOMS[i] = (e, lo, hi)
    else:
        l2, h2 = a[1], a[2]
        if lo is not None and (l2 is None or lo > l2):
            l2 = lo
        if hi is not None and (h2 is None or hi < h2):
            h2 = hi
        _ATOMS[i] = (e, l2, h2)
    return i


class LinInt(SymInt):
    __slots__ = ('c', 't', 'lo', 'hi', '_z')

    def __init__(self, c, t, lo, hi):
        self.c, self.t, self.lo, self.hi, self._z = c, t, lo, hi, None
        self.tag = None

    def z(self):
        if self._z is None:
            parts = []
            for a, k in self.t:
                e = _ATOMS[a][0]
                parts.append(e if k == 1 else z3.IntVal(k) * e)
            if self.c != 0 or not parts:
                parts.append(z3.IntVal(self.c))
            self._z = parts[0] if len(parts) == 1 else z3.Sum(parts)
        return self._z

    def key(self):
        return ('L', self.c, self.t)

    def model_value(self, m):
        v = self.c
        for a, k in self.t:
            v += k * m.eval(_ATOMS[a][0], model_completion=True).as_long()
        return v

    # arithmetic
    def __add__(self, o):
        o = as_int(o)
        if o is None:
            return NotImplemented
        if isinstance(o, int):
            if o == 0:
                return self
            return LinInt(self.c + o, self.t,
                          None if self.lo is None else self.lo + o,
                          None if self.hi is None else self.hi + o)
        d = dict(self.t)
        for a, k in o.t:
            v = d.get(a, 0) + k
            if v:
                d[a] = v
            else:
                del d[a]
        lo = None if self.lo is None or o.lo is None else self.lo + o.lo
        hi = None if self.hi is None or o.hi is None else self.hi + o.hi
        return mk_lin(self.c + o.c, d, lo, hi)
    __radd__ = __add__

    def __neg__(self):
        return LinInt(-self.c, tuple((a, -k) for a, k in self.t),
                      None if self.hi is None else -self.hi,
                      None if self.lo is None else -self.lo)

    def __sub__(self, o):
        o = as_int(o)
        if o is None:
            return NotImplemented
        return self + (-o)

    def __rsub__(self, o):
        o = as_int(o)
        if o is None:
            return NotImplemented
        return (-self) + o

    def __mul__(self, o):
        o2 = as_int(o)
        if o2 is None:
            from .ropes import SymBytes, rope_repeat
            if isinstance(o, (bytes, str, bytearray, SymBytes)):
                return rope_repeat(o, self)
            if isinstance(o, (list, tuple)):
                return o * E.concretize(self, 64, 'list repetition')
            return NotImplemented
        o = o2
        if isinstance(o, int):
            if o == 0:
                return 0
            if o == 1:
                return self
            lo, hi = self.lo, self.hi
            lo = None if lo is None else lo * o
            hi = None if hi is None else hi * o
            if o < 0:
                lo, hi = hi, lo
            return LinInt(self.c * o, tuple((a, k * o) for a, k in self.t), lo, hi)
        # sym * sym: concretise the narrower one
        w = lambda x: (x.hi - x.lo) if x.lo is not None and x.hi is not None else 1 << 200
        a, b = (self, o) if w(self) <= w(o) else (o, self)
        return b * E.concretize(a, 64, 'symbolic product')
    __rmul__ = __mul__

    def _split(self, d):
        """self = d*q + r with r the part not divisible by d; returns (q, r)"""
        qt, rt = {}, {}
        for a, k in self.t:
            if k % d == 0:
                qt[a] = k // d
            else:
                rt[a] = k
        q = mk_lin(self.c // d, qt, None, None)
        r = mk_lin(self.c % d, rt, None, None)
        return q, r

    def __floordiv__(self, o):
        o = as_int(o)
        if o is None:
            return NotImplemented
        if not isinstance(o, int):
            o = E.concretize(o, 64, 'symbolic divisor')
        if o == 0:
            raise ZeroDivisionError('integer division or modulo by zero')
        if o == 1:
            return self
        if o < 0:
            return (-self) // (-o)
        q, r = self._split(o)
        if isinstance(r, int):
            return q + r // o
        if r.lo is not None and r.lo >= 0 and r.hi is not None and r.hi < o:
            return q
        return q + _divatom(r, o)

    def __mod__(self, o):
        o = as_int(o)
        if o is None:
            return NotImplemented
        if not isinstance(o, int):
            o = E.concretize(o, 64, 'symbolic modulus')
        if o == 0:
            raise ZeroDivisionError('integer division or modulo by zero')
        if o < 0:
            return E.pin([self], 'modulo by a negative number')[0] % o
        q, r = self._split(o)
        if isinstance(r, int):
            return r % o
        if r.lo is not None and r.lo >= 0 and r.hi is not None and r.hi < o:
            return r
        r2 = r - _divatom(r, o) * o
        if isinstance(r2, int):
            return r2
        return LinInt(r2.c, r2.t, max(0, r2.lo) if r2.lo is not None else 0,
                      min(o - 1, r2.hi) if r2.hi is not None else o - 1)

    def __rfloordiv__(self, o):
        return o // E.concretize(self, 64, 'symbolic divisor')

    def __rmod__(self, o):
        if isinstance(o, (str, bytes)):
            from .models import m_format
            return m_format(o, self)
        return o % E.concretize(self, 64, 'symbolic modulus')

    def __pow__(self, o, m=None):
        x, y = E.pin([self, o], 'power of a symbolic int')
        return pow(x, y) if m is None else pow(x, y, m)

    def __rpow__(self, o):
        return o ** E.concretize(self, 64, 'exponent')

    def __lshift__(self, o):
        o = as_int(o)
        if o is None:
            return NotImplemented
        if not isinstance(o, int):
            o = E.concretize(o, 128, 'shift distance')
        return self * (1 << o)

    def __rlshift__(self, o):
        return o << E.concretize(self, 128, 'shift distance')

    def __rshift__(self, o):
        o = as_int(o)
        if o is None:
            return NotImplemented
        if not isinstance(o, int):
            o = E.concretize(o, 128, 'shift distance')
        return self // (1 << o)

    def __rrshift__(self, o):
        return o >> E.concretize(self, 128, 'shift distance')

    def _tz(self):
        g = self.c
        for _, k in self.t:
            g = math.gcd(g, k)
        return (g & -g) if g else 0

    def __and__(self, o):
        o = as_int(o)
        if o is None:
            return NotImplemented
        if isinstance(o, int):
            if o >= 0:
                return _and_const(self, o)
            return self - _and_const(self, ~o)
        return _bits2(self, o, 'and')
    __rand__ = __and__

    def __or__(self, o):
        o = as_int(o)
        if o is None:
            return NotImplemented
        if isinstance(o, int):
            if o == 0:
                return self
            if o < 0:
                return ~(_and_const(~self, ~o))
            r = _and_const(self, o)
            return self + o - r
        if self.lo is not None and self.lo >= 0 and o.lo is not None and o.lo >= 0:
            if o.hi is not None and o.hi < self._tz():
                return self + o
            if self.hi is not None and self.hi < o._tz():
                return self + o
        return self + o - _bits2(self, o, 'and')
    __ror__ = __or__

    def __xor__(self, o):
        o = as_int(o)
        if o is None:
            return NotImplemented
        if isinstance(o, int):
            if o == -1:
                return ~self
            if o < 0:
                return E.pin([self], 'xor with a negative mask')[0] ^ o
            return self + o - _and_const(self, o) * 2
        return self + o - _bits2(self, o, 'and') * 2
    __rxor__ = __xor__

    def __invert__(self):
        return -self - 1

    # comparison
    def __eq__(self, o):
        o = as_int(o)
        if o is None:
            return NotImplemented
        return _cmp(self - o, 'eq')

    def __ne__(self, o):
        o = as_int(o)
        if o is None:
            return NotImplemented
        return _cmp(self - o, 'ne')

    def __lt__(self, o):
        o = as_int(o)
        if o is None:
            return NotImplemented
        return _cmp(self - o, 'lt')

    def __le__(self, o):
        o = as_int(o)
        if o is None:
            return NotImplemented
        return _cmp(self - o, 'le')

    def __gt__(self, o):
        o = as_int(o)
        if o is None:
            return NotImplemented
        return _cmp(o - self, 'lt')

    def __ge__(self, o):
        o = as_int(o)
        if o is None:
            return NotImplemented
        return _cmp(o - self, 'le')

    __hash__ = SymInt.__hash__


def mk_lin(c, d, lo, hi):
    if not d:
        return c
    l2 = h2 = c
    for a, k in d.items():
        _, al, ah = _ATOMS[a]
        if k < 0:
            al, ah = ah, al
        l2 = None if l2 is None or al is None else l2 + k * al
        h2 = None if h2 is None or ah is None else h2 + k * ah
    if l2 is not None and (lo is None or l2 > lo):
        lo = l2
    if h2 is not None and (hi is None or h2 < hi):
        hi = h2
    if lo is not None and lo == hi:
        return lo
    return LinInt(c, tuple(sorted(d.items())), lo, hi)


_DIVOF = {}     # atom id of a div term -> (LinInt dividend, divisor)


def _divatom(r, d):
    """atom for floor(r / d), r has no part divisible by d"""
    if r.c == 0 and len(r.t) == 1 and r.t[0][1] == 1:
        a = r.t[0][0]
        if a in _DIVOF:
            inner, k = _DIVOF[a]
            return inner // (k * d)
    g = d
    for _, k in r.t:
        g = math.gcd(g, k)
    if g > 1:
        # floor((g*x + c) / (g*e)) = floor((x + floor(c/g)) / e)
        return \
            mk_lin(r.c // g, {a: k // g for a, k in r.t}, None, None) // (d // g)
    e = r.z() / z3.IntVal(d)
    lo = None if r.lo is None else r.lo // d
    hi = None if r.hi is None else r.hi // d
    if lo is not None and lo == hi:
        return lo
    i = _atom(e, lo, hi)
    _DIVOF[i] = (r, d)
    return mk_lin(0, {i: 1}, lo, hi)


def _and_const(x, m):
    if m == 0:
        return 0
    if x.lo is not None and x.lo >= 0 and x.hi is not None:
        m &= (1 << x.hi.bit_length()) - 1
        if m == 0:
            return 0
    out = 0
    b = 0
    while m >> b:
        if not (m >> b) & 1:
            b += 1
            continue
        e = b
        while (m >> e) & 1:
            e += 1
        out = out + ((x // (1 << b)) % (1 << (e - b))) * (1 << b)
        b = e
    return out


def _bits2(x, y, op):
    for a, b in ((x, y), (y, x)):
        tz = b._tz()
        if tz > 1 and E.must(b_and(a >= 0, a < tz, b >= 0)):
            return 0        # no bit in common
    for v in (x, y):
        if v.lo is None or v.lo < 0 or v.hi is None or v.hi >= 1 << 16:
            x, y = E.pin([x, y], 'bit operation on two wide symbolic integers')
            return x & y
    out = 0
    for b in range(min(x.hi.bit_length(), y.hi.bit_length())):
        xb, yb = (x // (1 << b)) % 2, (y // (1 << b)) % 2
        out = out + ite(b_and(xb == 1, yb == 1), 1 << b, 0)
    return out


def _cmp(d, op):
    """d op 0"""
    if isinstance(d, int):
        return {'eq': d == 0, 'ne': d != 0, 'lt': d < 0, 'le': d <= 0}[op]
    if isinstance(d, BvInt):
        raise Unsupported('mixed backends')
    lo, hi = d.lo, d.hi
    if op in ('eq', 'ne'):
        if (lo is not None and lo > 0) or (hi is not None and hi < 0):
            return op == 'ne'
        g = 0
        for _, k in d.t:
            g = math.gcd(g, k)
        if g > 1 and d.c % g:
            return op == 'ne'
    elif op == 'lt':
        if hi is not None and hi < 0:
            return True
        if lo is not None and lo >= 0:
            return False
    else:
        if hi is not None and hi <= 0:
            return True
        if lo is not None and lo > 0:
            return False
    # sum(t) op -c
    lin = LinInt(0, d.t, None, None).z()
    c = z3.IntVal(-d.c)
    e = {'eq': lambda: lin == c, 'ne': lambda: lin != c,
         'lt': lambda: lin < c, 'le': lambda: lin <= c}[op]()
    return SymBool(e)


# ---------------------------------------------------------------- bit vectors
def _need(lo, hi):
    """width of a signed vector holding [lo, hi]"""
    n = max(hi.bit_length() if hi >= 0 else (~hi).bit_length(),
            lo.bit_length() if lo >= 0 else (~lo).bit_length())
    return n + 1


MAXW = 640


class BvInt(SymInt):
    __slots__ = ('e', 'lo', 'hi', 'wt')

    def __init__(self, e, lo, hi):
        self.e, self.lo, self.hi = e, lo, hi
        self.tag = None
        self.wt = 1

    def z(self):
        return self.e

    def key(self):
        return ('B', z3.simplify(self.e).sexpr())

    def model_value(self, m):
        return m.eval(self.e, model_completion=True).as_signed_long()

    def at(self, w):
        s = self.e.size()
        if s == w:
            return self.e
        if s < w:
            return z3.SignExt(w - s, self.e) if self.lo < 0 else z3.ZeroExt(w - s, self.e)
        return z3.Extract(w - 1, 0, self.e)

    def _bin(self, o, lo, hi, f):
        w = max(_need(lo, hi), self.e.size(), o.e.size() if isinstance(o, BvInt) else _need(o, o))
        a = self.at(w)
        b = o.at(w) if isinstance(o, BvInt) else z3.BitVecVal(o, w)
        return weigh(mk_bv(f(a, b), lo, hi), self, o)

    def __add__(self, o):
        o = as_int(o)
        if o is None:
            return NotImplemented
        if isinstance(o, int):
            if o == 0:
                return self
            l2, h2 = o, o
        else:
            l2, h2 = o.lo, o.hi
        return self._bin(o, self.lo + l2, self.hi + h2, lambda a, b: a + b)
    __radd__ = __add__

    def __neg__(self):
        return 0 - self

    def __sub__(self, o):
        o = as_int(o)
        if o is None:
            return NotImplemented
        if isinstance(o, int):
            return self + (-o)
        if self.e.eq(o.e):
            return 0
        return self._bin(o, self.lo - o.hi, self.hi - o.lo, lambda a, b: a - b)

    def __rsub__(self, o):
        o = as_int(o)
        if o is None:
            return NotImplemented
        if isinstance(o, int):
            return self._bin(o, o - self.hi, o - self.lo, lambda a, b: b - a)
        return o - self

    def __mul__(self, o):
        o2 = as_int(o)
        if o2 is None:
            from .ropes import SymBytes, rope_repeat
            if isinstance(o, (bytes, str, bytearray, SymBytes)):
                return rope_repeat(o, self)
            if isinstance(o, (list, tuple)):
                return o * E.concretize(self, 64, 'list repetition')
            return NotImplemented
        o = o2
        if isinstance(o, int):
            if o == 0:
                return 0
            c = [self.lo * o, self.hi * o]
        else:
            c = [a * b for a in (self.lo, self.hi) for b in (o.lo, o.hi)]
        return self._bin(o, min(c), max(c), lambda a, b: a * b)
    __rmul__ = __mul__

    def __floordiv__(self, o):
        o = as_int(o)
        if o is None:
            return NotImplemented
        if not isinstance(o, int):
            o = E.concretize(o, 64, 'divisor')
        if o == 0:
            raise ZeroDivisionError('integer division or modulo by zero')
        if o < 0:
            return (-self) // (-o)
        if o & (o - 1) == 0:
            return self >> (o.bit_length() - 1)
        if self.lo < 0:
            return E.pin([self], 'division of a possibly negative number')[0] // o
        return self._bin(o, self.lo // o, self.hi // o, lambda a, b: z3.UDiv(a, b))

    def __mod__(self, o):
        o = as_int(o)
        if o is None:
            return NotImplemented
        if not isinstance(o, int):
            o = E.concretize(o, 64, 'modulus')
        if o == 0:
            raise ZeroDivisionError('integer division or modulo by zero')
        if o < 0:
            return E.pin([self], 'modulo by a negative number')[0] % o
        if o & (o - 1) == 0:
            return self & (o - 1)
        if self.lo < 0:
            return E.pin([self], 'modulo of a possibly negative number')[0] % o
        return self._bin(o, 0, min(o - 1, self.hi), lambda a, b: z3.URem(a, b))

    def __rfloordiv__(self, o):
        return o // E.concretize(self, 64, 'divisor')

    def __rmod__(self, o):
        if isinstance(o, (str, bytes)):
            from .models import m_format
            return m_format(o, self)
        return o % E.concretize(self, 64, 'modulus')

    def __pow__(self, o, m=None):
        x, y = E.pin([self, o], 'power of a symbolic int')
        return pow(x, y) if m is None else pow(x, y, m)

    def __rpow__(self, o):
        return o ** E.concretize(self, 64, 'exponent')

    def __lshift__(self, o):
        o = as_int(o)
        if o is None:
            return NotImplemented
        if not isinstance(o, int):
            o = E.concretize(o, 128, 'shift distance')
        if o == 0:
            return self
        lo, hi = self.lo << o, self.hi << o
        w = max(_need(lo, hi), self.e.size())
        return mk_bv(self.at(w) << o, lo, hi)

    def __rlshift__(self, o):
        return o << E.concretize(self, 128, 'shift distance')

    def __rshift__(self, o):
        o = as_int(o)
        if o is None:
            return NotImplemented
        if not isinstance(o, int):
            o = E.concretize(o, 128, 'shift distance')
        if o == 0:
            return self
        return mk_bv(self.e >> min(o, self.e.size() - 1), self.lo >> o, self.hi >> o)

    def __rrshift__(self, o):
        return o >> E.concretize(self, 128, 'shift distance')

    def _bit(self, o, f, name):
        o = as_int(o)
        if o is None:
            return NotImplemented
        ol, oh = (o, o) if isinstance(o, int) else (o.lo, o.hi)
        if name == 'and':
            if self.lo >= 0 and ol >= 0:
                lo, hi = 0, min(self.hi, oh)
            elif ol >= 0:
                lo, hi = 0, oh
            elif self.lo >= 0:
                lo, hi = 0, self.hi
            else:
                n = max(_need(self.lo, self.hi), _need(ol, oh)) - 1
                lo, hi = -(1 << n), (1 << n) - 1
        else:
            n = max(_need(self.lo, self.hi), _need(ol, oh)) - 1
            if self.lo >= 0 and ol >= 0:
                lo, hi = (max(self.lo, ol) if name == 'or' else 0), (1 << n) - 1
            else:
                lo, hi = -(1 << n), (1 << n) - 1
        return self._bin(o, lo, hi, f)

    def __and__(self, o):
        return self._bit(o, lambda a, b: a & b, 'and')
    __rand__ = __and__

    def __or__(self, o):
        return self._bit(o, lambda a, b: a | b, 'or')
    __ror__ = __or__

    def __xor__(self, o):
        return self._bit(o, lambda a, b: a ^ b, 'xor')
    __rxor__ = __xor__

    def __invert__(self):
        return -self - 1

    def _cmp(self, o, f, quick):
        o = as_int(o)
        if o is None:
            return NotImplemented
        ol, oh = (o, o) if isinstance(o, int) else (o.lo, o.hi)
        q = quick(self.lo, self.hi, ol, oh)
        if q is not None:
            return q
        w = max(self.e.size(), o.e.size() if isinstance(o, BvInt) else _need(o, o))
        b = o.at(w) if isinstance(o, BvInt) else z3.BitVecVal(o, w)
        a = self.at(w)
        if a.eq(b):
            return mk_bool(z3.simplify(f(a, b)))
        e = z3.simplify(f(a, b))
        return mk_bool(e)

    def __eq__(self, o):
        return self._cmp(o, lambda a, b: a == b,
                         lambda l, h, ol, oh: False if h < ol or oh < l else None)

    def __ne__(self, o):
        return self._cmp(o, lambda a, b: a != b,
                         lambda l, h, ol, oh: True if h < ol or oh < l else None)

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b,
                         lambda l, h, ol, oh: True if h < ol else False if l >= oh else None)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b,
                         lambda l, h, ol, oh: True if h <= ol else False if l > oh else None)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b,
                         lambda l, h, ol, oh: True if l > oh else False if h <= ol else None)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b,
                         lambda l, h, ol, oh: True if l >= oh else False if h < ol else None)

    __hash__ = SymInt.__hash__


def mk_bv(e, lo, hi):
    if lo == hi:
        return lo
    w = _need(lo, hi)
    if w > MAXW:
        raise Unsupported('integer too wide')
    s = e.size()
    if s > w:
        e = z3.Extract(w - 1, 0, e)
    e = z3.simplify(e)
    if z3.is_bv_value(e):
        return e.as_signed_long()
    return BvInt(e, lo, hi)


MAXWT = 64


def weigh(r, a, b):
    """name a term that has grown large, so that what is built on it stays small"""
    if isinstance(r, BvInt):
        r.wt = 1 + (a.wt if isinstance(a, BvInt) else 0) + (b.wt if isinstance(b, BvInt) else 0)
        if r.wt > MAXWT and E.active:
            c = z3.BitVec(E.fresh('abbr'), r.e.size())
            E._add(c == r.e)
            if E.model is not None:
                E.model = None
            r = BvInt(c, r.lo, r.hi)
    return r


# ---------------------------------------------------------------- helpers
def as_int(o):
    if isinstance(o, bool):
        return int(o)
    if isinstance(o, (int, SymInt)):
        return o
    if isinstance(o, SymBool):
        return o._as_int()
    return None


def var(name, lo, hi):
    """fresh symbolic integer constrained to [lo, hi]"""
    if lo is not None and lo == hi:
        return lo
    if E.mode == 'bv':
        w = _need(lo, hi)
        if lo >= 0 and hi == (1 << (w - 1)) - 1:
            e = z3.ZeroExt(1, z3.BitVec(name, w - 1))
            x = BvInt(e, lo, hi)
            if lo > 0:
                E.assume(x._cmp(lo, lambda a, b: a >= b, lambda *a: None))
            return x
        e = z3.BitVec(name, w)
        x = BvInt(e, lo, hi)
        c = z3.And(e >= z3.BitVecVal(lo, w), e <= z3.BitVecVal(hi, w))
        E.assume(SymBool(c))
        return x
    e = z3.Int(name)
    i = e.get_id()
    _ATOMS[i] = (e, lo, hi)
    if lo is not None:
        E.assume(SymBool(e >= lo))
    if hi is not None:
        E.assume(SymBool(e <= hi))
    return LinInt(0, ((i, 1),), lo, hi)


def from_z3(e, lo, hi):
    """wrap a z3 term of the current mode's sort that is known to lie in [lo, hi]"""
    if E.mode == 'bv':
        return mk_bv(e, lo, hi)
    if z3.is_int_value(e):
        return e.as_long()
    i = _atom(e, lo, hi)
    return mk_lin(0, {i: 1}, lo, hi)


def z(x, w=None):
    """z3 term of an int or SymInt"""
    if isinstance(x, SymInt):
        if w is not None and isinstance(x, BvInt):
            return x.at(w)
        return x.z()
    if E.mode == 'bv':
        return z3.BitVecVal(x, w or _need(x, x))
    return z3.IntVal(x)


def eq(a, b):
    r = (a == b)
    return r


def ite(c, a, b):
    """if-then-else on integers"""
    if isinstance(c, bool):
        return a if c else b
    if a is b:
        return a
    if isinstance(a, int) and isinstance(b, int) and a == b:
        return a
    al, ah = (a, a) if isinstance(a, int) else (a.lo, a.hi)
    bl, bh = (b, b) if isinstance(b, int) else (b.lo, b.hi)
    lo = None if al is None or bl is None else min(al, bl)
    hi = None if ah is None or bh is None else max(ah, bh)
    if E.mode == 'bv':
        w = max(_need(lo, hi), a.e.size() if isinstance(a, BvInt) else 1, b.e.size() if isinstance(b, BvInt) else 1)
        return weigh(mk_bv(z3.If(bexpr(c), z(a, w), z(b, w)), lo, hi), a, b)
    return from_z3(z3.If(bexpr(c), z(a), z(b)), lo, hi)


def is_sym(x):
    return isinstance(x, SymInt)
