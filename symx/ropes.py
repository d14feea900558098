"""Symbolic byte strings (and text) as ropes of segments with possibly symbolic lengths."""
import z3
from .core import (E, SymBool, mk_bool, bexpr, Unsupported, b_and, b_or, b_not, SxBug)
from .ints import SymInt, LinInt, BvInt, var, from_z3, z, ite, _need

UFW = 64        # index width of content functions in bv mode


class Source:
    """a named unconstrained byte sequence of unbounded length: content[i] is an
    uninterpreted function"""
    def __init__(self, name):
        self.name = name
        if E.mode == 'bv':
            self.f = z3.Function(ascii(name)[1:-1], z3.BitVecSort(UFW), z3.BitVecSort(8))
        else:
            self.f = z3.Function(ascii(name)[1:-1], z3.IntSort(), z3.IntSort())

    def elem_z(self, i):
        """z3 term (8 bit / Int) of byte i (int or SymInt)"""
        if E.mode == 'bv':
            e = self.f(z(i, UFW) if not isinstance(i, BvInt) else i.at(UFW))
        else:
            e = self.f(z(i))
            E._add(z3.And(e >= 0, e <= 255))
        E.points.append((self, i, e))
        return e

    def elem(self, i):
        e = self.elem_z(i)
        if E.mode == 'bv':
            return BvInt(z3.ZeroExt(1, e), 0, 255)
        return from_z3(e, 0, 255)


class ZSource(Source):
    """bytes of an encoded (compressed) stream; the bytes themselves are opaque"""


class Known(Source):
    """concrete bytes that are cut at symbolic places without looking at every one of them"""
    def __init__(self, name, b):
        self.name, self.b = name, b

    def elem_z(self, i):
        return byte_z(self.elem(i))

    def elem(self, i):
        if isinstance(i, int):
            return self.b[i] if i < len(self.b) else 0
        return _select(list(self.b), i)


class Seg:
    __slots__ = ()


class Lit(Seg):
    __slots__ = ('b',)

    def __init__(self, b):
        self.b = b

    @property
    def n(self):
        return len(self.b)

    def sub(self, a, n):
        return Lit(self.b[a:a + n])

    def at(self, i):
        if isinstance(i, int):
            return self.b[i]
        return _select(list(self.b), i)

    def key(self):
        return ('l', self.b)


class Cells(Seg):
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v

    @property
    def n(self):
        return len(self.v)

    def sub(self, a, n):
        return Cells(self.v[a:a + n])

    def at(self, i):
        if isinstance(i, int):
            return self.v[i]
        return _select(self.v, i)

    def key(self):
        return ('c',) + tuple(x if isinstance(x, int) else x.key() for x in self.v)


class Src(Seg):
    __slots__ = ('s', 'a', 'n')

    def __init__(self, s, a, n):
        self.s, self.a, self.n = s, a, n

    def sub(self, a, n):
        a = self.a + a
        if isinstance(self.s, Known) and isinstance(a, int) and isinstance(n, int):
            return Lit(self.s.b[a:a + n])
        return Src(self.s, a, n)

    def at(self, i):
        return self.s.elem(self.a + i)

    def key(self):
        return ('s', self.s.name, ikey(self.a), ikey(self.n))


class Fill(Seg):
    __slots__ = ('v', 'n')

    def __init__(self, v, n):
        self.v, self.n = v, n

    def sub(self, a, n):
        return Fill(self.v, n)

    def at(self, i):
        return self.v

    def key(self):
        return ('f', self.v, ikey(self.n))


class Table:
    """values of a function at 0..n-1; lets a symbolic index be answered by the function"""
    def __init__(self, n, fn):
        self.fn = fn
        self.vals = [fn(j) for j in range(n)]
        for j, v in enumerate(self.vals):
            if isinstance(v, SymInt):
                v.tag = ('tab', self, j)

    def __eq__(self, o):
        return self is o
    __hash__ = object.__hash__


def refine(v, lo, hi):
    """v is known (by the path condition) to lie in [lo, hi]"""
    if isinstance(v, SymInt) and v.lo is not None and v.hi is not None and v.lo >= lo and v.hi <= hi:
        return v
    if isinstance(v, LinInt):
        return LinInt(v.c, v.t, lo if v.lo is None else max(lo, v.lo), hi if v.hi is None else min(hi, v.hi))
    if isinstance(v, BvInt):
        lo, hi = max(lo, v.lo), min(hi, v.hi)
        w = _need(lo, hi)
        return BvInt(v.at(w), lo, hi)
    return v


def ikey(x):
    return x if isinstance(x, int) else x.key()


def _select(vals, i):
    """vals[i] for symbolic i known to be in range"""
    lo = 0 if i.lo is None else max(0, i.lo)
    hi = len(vals) - 1 if i.hi is None else min(len(vals) - 1, i.hi)
    if hi - lo > 2000:
        raise Unsupported('symbolic index into a large concrete table')
    # a table of a known function: apply the function
    for j in range(lo, hi + 1):
        t = vals[j].tag if isinstance(vals[j], SymInt) else None
        if t is not None and t[0] == 'tab':
            T, off = t[1], t[2] - j
            if lo + off >= 0 and hi + off < len(T.vals) and all(
                    (vals[k].tag == ('tab', T, k + off)) if isinstance(vals[k], SymInt) else
                    (isinstance(T.vals[k + off], int) and T.vals[k + off] == vals[k])
                    for k in range(lo, hi + 1)):
                return T.fn(i + off)
            break
    out = vals[hi]
    for j in range(hi - 1, lo - 1, -1):
        out = ite(i == j, vals[j], out)
    return out


def _canon(segs):
    out = []
    for s in segs:
        if isinstance(s.n, int):
            if s.n == 0:
                continue
            if s.n < 0:
                raise SxBug('negative segment length')
            if isinstance(s, Cells):
                if all(isinstance(x, int) for x in s.v):
                    s = Lit(bytes(s.v))
            elif isinstance(s, Fill) and s.n <= 65536 and isinstance(s.v, int):
                s = Lit(bytes([s.v]) * s.n)
        elif s.n.hi is not None and s.n.hi <= 0:
            continue
        if out:
            p = out[-1]
            if isinstance(p, Lit) and isinstance(s, Lit):
                out[-1] = Lit(p.b + s.b)
                continue
            if isinstance(p, Cells) and isinstance(s, Cells):
                out[-1] = Cells(p.v + s.v)
                continue
            if isinstance(p, Src) and isinstance(s, Src) and p.s is s.s:
                d = s.a - (p.a + p.n)
                if isinstance(d, int) and d == 0:
                    out[-1] = Src(p.s, p.a, p.n + s.n)
                    continue
            if isinstance(p, Fill) and isinstance(s, Fill) and isinstance(p.v, int) and p.v == s.v:
                out[-1] = Fill(p.v, p.n + s.n)
                continue
        out.append(s)
    return tuple(out)


def total(segs):
    n = 0
    for s in segs:
        n = n + s.n
    return n


def segs_of(x):
    if isinstance(x, SymBytes):
        return x.segs
    if isinstance(x, (bytes, bytearray)):
        return (Lit(bytes(x)),) if len(x) else ()
    if isinstance(x, memoryview):
        return segs_of(x.tobytes())
    if isinstance(x, str):
        return segs_of(x.encode('utf-8'))
    r = getattr(x, '_sx_rope', None) if hasattr(type(x), '_sx_rope') else None
    if r is not None:
        return r().segs if callable(r) else r.segs
    return None


def mk(segs, kind='bytes'):
    segs = _canon(segs)
    if kind in ('bytes', 'str') and all(isinstance(s, Lit) for s in segs):
        b = segs[0].b if segs else b''
        return b if kind == 'bytes' else b.decode('utf-8')
    return SymBytes(segs, kind)


def split(segs, p):
    """split at position 0 <= p <= total; forks on segment boundaries"""
    left = []
    pos = 0
    segs = list(segs)
    for k, s in enumerate(segs):
        rel = p - pos
        if isinstance(rel, int) and rel == 0:
            return left, segs[k:]
        # does p lie strictly inside or before the end of s?
        if rel >= s.n:
            left.append(s)
            pos = pos + s.n
            continue
        # 0 <= rel < s.n
        if isinstance(s, (Lit, Cells)) and not isinstance(rel, int):
            rel = E.concretize(rel, 300, 'split position in concrete bytes')
        if isinstance(rel, int) and rel == 0:
            return left, segs[k:]
        left.append(s.sub(0, rel))
        return left, [s.sub(rel, s.n - rel)] + segs[k + 1:]
    return left, []


NATIVE = {'str': str, 'bytearray': bytearray, 'memoryview': memoryview}


def pin(x, what, depth=2):
    """x with everything symbolic in it replaced by one concrete value (see Engine.pin)"""
    if isinstance(x, SymInt):
        return E.pin([x], what)[0]
    if isinstance(x, SymBool):
        return bool(x)
    if isinstance(x, SymBytes):
        n = E.pin([x.len], what)[0]
        if n > 5000:
            raise Unsupported(what)
        vals = E.pin([x.at(i) for i in range(n)], what)
        if x.kind == 'str':
            return ''.join(map(chr, vals))
        return {'bytearray': bytearray, 'memoryview': lambda v: memoryview(bytes(v))}.get(x.kind, bytes)(vals)
    if depth and type(x) in (list, tuple):
        return type(x)(pin(y, what, depth - 1) for y in x)
    return x


class SymBytes:
    """immutable rope; kind is the Python type it stands for"""
    __slots__ = ('segs', 'kind', 'len')

    def __init__(self, segs, kind='bytes'):
        self.segs = segs
        self.kind = kind
        self.len = total(segs)

    def __repr__(self):
        return '<%s rope %s>' % (self.kind, ' '.join('%s:%s' % (type(s).__name__, s.n) for s in self.segs))

    def __len__(self):
        n = self.len
        if isinstance(n, SymInt):
            return E.concretize(n, 64, 'length used by native code')
        return n

    def __bool__(self):
        n = self.len
        if isinstance(n, int):
            return n > 0
        return bool(n > 0)

    def key(self):
        return tuple(s.key() for s in self.segs)

    def __getattr__(self, name):
        # methods of the type it stands for that have no model
        t = NATIVE.get(self.kind, bytes)
        if name.startswith('_') or not hasattr(t, name):
            raise AttributeError("'%s' object has no attribute '%s'" % (t.__name__, name))
        what = '%s.%s of symbolic data' % (t.__name__, name)
        if not callable(getattr(t, name)):
            return getattr(pin(self, what), name)
        return lambda *a, **k: getattr(pin(self, what), name)(*[pin(x, what) for x in a],
                                                              **{n: pin(x, what) for n, x in k.items()})

    # -- access
    def at(self, i):
        """byte at position i, 0 <= i < len (no bounds check)"""
        pos = 0
        if isinstance(i, SymInt) and all(isinstance(s, (Lit, Cells)) for s in self.segs):
            vals = []
            for s in self.segs:
                vals.extend(s.b if isinstance(s, Lit) else s.v)
            return _select(vals, i)
        last = len(self.segs) - 1
        for k, s in enumerate(self.segs):
            if k == last or (i - pos) < s.n:
                return s.at(i - pos)
            pos = pos + s.n
        raise SxBug('at() out of range')

    def __getitem__(self, i):
        E.guard()
        if isinstance(i, slice):
            if i.step not in (None, 1):
                return pin(self, 'extended slice')[i]
            a, b = norm_slice(i.start, i.stop, self.len)
            return self.sub(a, b)
        n = self.len
        if i < 0:
            i = i + n
            if i < 0:
                raise IndexError('index out of range')
        elif not (i < n):
            raise IndexError('index out of range')
        v = self.at(i)
        if self.kind == 'str':
            return mk([Cells([v])], 'str') if not isinstance(v, int) else chr(v)
        return v

    def sub(self, a, b):
        """[a:b) with 0 <= a, b <= len; empty if b <= a"""
        if not (a < b):
            return mk((), self.kind)
        if isinstance(a, int) and a == 0:
            rest = self.segs
        else:
            rest = split(self.segs, a)[1]
        if E.alloc is not None and self.kind != 'memoryview':
            E.note(b - a)
        d = b - self.len
        if isinstance(d, int) and d == 0:
            return mk(rest, self.kind)
        out = split(rest, b - a)[0]
        return mk(out, self.kind)

    def __iter__(self):
        i = 0
        while i < self.len:
            E.tick()
            yield self[i]
            i += 1

    def __reversed__(self):
        return reversed(list(self))

    # -- combination
    def __add__(self, o):
        so = segs_of(o)
        if so is None:
            return NotImplemented
        if E.alloc is not None:
            E.note(self.len + total(so))
        return mk(self.segs + tuple(so), self.kind)

    def __radd__(self, o):
        so = segs_of(o)
        if so is None:
            return NotImplemented
        if E.alloc is not None:
            E.note(self.len + total(so))
        k = 'str' if isinstance(o, str) else 'bytearray' if isinstance(o, bytearray) else 'bytes'
        return mk(tuple(so) + self.segs, k)

    def __mul__(self, n):
        return rope_repeat(self, n)
    __rmul__ = __mul__

    # -- comparison
    def __eq__(self, o):
        if o is None or isinstance(o, (int, float, list, tuple, dict)):
            return False
        so = segs_of(o)
        if so is None:
            return NotImplemented
        if (self.kind == 'str') != (isinstance(o, str) or getattr(o, 'kind', '') == 'str'):
            return False
        return rope_eq(self.segs, so)

    def __ne__(self, o):
        r = self.__eq__(o)
        if r is NotImplemented:
            return r
        return b_not(r)

    def __hash__(self):
        raise Unsupported('symbolic bytes used as a key of a native dict or set')

    def _ord(self, o, strict, swap):
        so = segs_of(o)
        if so is None:
            return NotImplemented
        a, b = (so, self.segs) if swap else (self.segs, so)
        return rope_less(a, b, strict)

    def __lt__(self, o):
        return self._ord(o, True, False)

    def __le__(self, o):
        return self._ord(o, False, False)

    def __gt__(self, o):
        return self._ord(o, True, True)

    def __ge__(self, o):
        return self._ord(o, False, True)

    def __contains__(self, x):
        E.guard()
        if isinstance(x, (int, SymInt)):
            for v in self:
                if v == x:
                    return True
            return False
        return not (self.find(x) < 0)

    # -- bytes methods
    def tobytes(self):
        if E.alloc is not None:
            E.note(self.len)
        return mk(self.segs, 'bytes')

    def release(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    @property
    def nbytes(self):
        return self.len

    @property
    def obj(self):
        return self

    def find(self, sub, start=0, end=None):
        E.guard()
        if isinstance(sub, (int, SymInt)):
            sub = mk([Cells([sub])], 'bytes')
        ss = mk(segs_of(sub), 'bytes')
        n = ss.len if isinstance(ss, SymBytes) else len(ss)
        if not isinstance(n, int):
            return mk(segs_of(self), self.kind).find(pin(sub, 'find of a symbolic-length needle'), start, end)
        i = start
        stop = self.len if end is None else end
        # concrete scan first through concrete segments, forking on symbolic bytes
        pos = 0
        while i + n <= stop:
            E.tick()
            ok = True
            for j in range(n):
                if not (self.at(i + j) == (ss[j])):
                    ok = False
                    break
            if ok:
                return i
            i = i + 1
        return -1

    def index(self, sub, start=0, end=None):
        r = self.find(sub, start, end)
        if r < 0:
            raise ValueError('subsection not found')
        return r

    def startswith(self, p, start=0):
        if isinstance(p, tuple):
            return any(self.startswith(x) for x in p)
        ps = segs_of(p)
        n = total(ps)
        if self.len < n:
            return False
        return mk(segs_of(self.sub(0, n)), self.kind) == mk(ps, self.kind)

    def endswith(self, p):
        ps = segs_of(p)
        n = total(ps)
        if self.len < n:
            return False
        return mk(segs_of(self.sub(self.len - n, self.len)), self.kind) == mk(ps, self.kind)

    def partition(self, sep):
        i = self.find(sep)
        n = len(sep)
        if i < 0:
            return self, mk((), self.kind), mk((), self.kind)
        return self[:i], sep, self[i + n:]

    def split(self, sep=None, maxsplit=-1):
        if sep is None:
            return pin(self, 'whitespace split').split(None, maxsplit)
        out = []
        rest = self
        n = len(sep)
        while maxsplit != 0:
            if not isinstance(rest, SymBytes):
                out.extend(rest.split(sep, maxsplit))
                return out
            i = rest.find(sep)
            if i < 0:
                break
            out.append(rest[:i])
            rest = rest[i + n:]
            maxsplit -= 1
        out.append(rest)
        return out

    def join(self, parts):
        out = []
        for k, p in enumerate(parts):
            if k:
                out.extend(self.segs)
            out.extend(segs_of(p))
        if E.alloc is not None:
            E.note(total(out))
        return mk(out, self.kind)

    def decode(self, *a):
        return mk(self.segs, 'str')

    def encode(self, *a):
        return mk(self.segs, 'bytes')

    def hex(self):
        return to_hex(self, 'str')

    def lower(self):
        out = []
        for v in self.cells():
            c = b_and(v >= 65, v <= 90)
            out.append(ite(c, v + 32, v))
        return mk([Cells(out)], self.kind)

    def _chars(self, chars):
        if chars is None:
            return (9, 10, 11, 12, 13, 32) if self.kind != 'str' else (9, 10, 11, 12, 13, 28, 29, 30, 31, 32, 0x85, 0xa0)
        x = mk(segs_of(chars), self.kind)
        return list(x.cells()) if isinstance(x, SymBytes) else [ord(c) if isinstance(c, str) else c for c in x]

    def lstrip(self, chars=None):
        cs = self._chars(chars)
        i = 0
        while i < self.len:
            E.tick()
            v = self.at(i)
            if not b_or(*[v == c for c in cs]):
                break
            i = i + 1
        return self.sub(i, self.len)

    def rstrip(self, chars=None):
        cs = self._chars(chars)
        i = self.len
        while i > 0:
            E.tick()
            v = self.at(i - 1)
            if not b_or(*[v == c for c in cs]):
                break
            i = i - 1
        return self.sub(0, i)

    def strip(self, chars=None):
        r = self.lstrip(chars)
        return r.rstrip(chars)

    def ljust(self, width, fill=b' '):
        d = width - self.len
        if d <= 0:
            return self
        return mk(self.segs + (Fill(fill[0] if isinstance(fill, bytes) else ord(fill), d),), self.kind)

    def cells(self):
        n = self.len
        if isinstance(n, SymInt):
            n = E.concretize(n, 64, 'length')
        return [self.at(i) for i in range(n)]

    def cast(self, *a):
        return self

    # mmap / buffer look
    def close(self):
        pass


class SymView(SymBytes):
    """memoryview kind that allows nothing extra"""


def norm_slice(a, b, n):
    if a is None:
        a = 0
    elif a < 0:
        a = a + n
        if a < 0:
            a = 0
    elif not isinstance(a, int) or not isinstance(n, int):
        if a > n:
            a = n
    elif a > n:
        a = n
    if b is None:
        b = n
    elif b < 0:
        b = b + n
        if b < 0:
            b = 0
    elif b is not n:
        if b > n:
            b = n
    return a, b


def rope_repeat(x, n):
    s = segs_of(x)
    kind = x.kind if isinstance(x, SymBytes) else 'str' if isinstance(x, str) else \
        'bytearray' if isinstance(x, bytearray) else 'bytes'
    if isinstance(n, int):
        return mk(tuple(s) * max(n, 0), kind)
    if n <= 0:
        return mk((), kind)
    if len(s) == 0:
        return mk((), kind)
    if len(s) == 1 and isinstance(s[0].n, int) and s[0].n == 1:
        return mk([Fill(s[0].at(0), n)], kind)
    n = E.concretize(n, 64, 'repetition count')
    return mk(tuple(s) * n, kind)


# ---------------------------------------------------------------- equality
def _align(a, b):
    """try to match both segment lists without forking.  Returns list of comparable
    (seg, seg) pairs of identical length, or None"""
    a, b = list(a), list(b)
    pairs = []
    while a and b:
        x, y = a[0], b[0]
        d = x.n - y.n
        if isinstance(d, int):
            if d == 0:
                pairs.append((x, y))
                a.pop(0)
                b.pop(0)
            elif d < 0:
                pairs.append((x, y.sub(0, x.n)))
                a.pop(0)
                b[0] = y.sub(x.n, y.n - x.n)
            else:
                pairs.append((x.sub(0, y.n), y))
                b.pop(0)
                a[0] = x.sub(y.n, x.n - y.n)
            continue
        return None, (pairs, a, b)
    if a or b:
        return None, (pairs, a, b)
    return pairs, None


def _seg_eq(x, y):
    """True / False / formula / None when it needs a quantifier"""
    if x.key() == y.key():
        return True
    if isinstance(x, Lit) and isinstance(y, Lit):
        return x.b == y.b
    if isinstance(x.n, int) and isinstance(y.n, int) and x.n <= 64:
        return b_and(*[_byte_eq(x.at(i), y.at(i)) for i in range(x.n)])
    if isinstance(x, Fill) and isinstance(y, Fill):
        return b_or(x.n == 0, x.v == y.v)
    return None


def _byte_eq(a, b):
    return a == b


def _prefix(segs):
    """concrete bytes it starts with"""
    out = b''
    for s in segs:
        if not isinstance(s, Lit) or len(out) > 16:
            break
        out += s.b[:64]
        if len(s.b) > 64:
            break
    return out


def rope_eq(a, b):
    a, b = _canon(a), _canon(b)
    na, nb = total(a), total(b)
    leneq = (na == nb)
    if leneq is False:
        return False
    pa, pb = _prefix(a), _prefix(b)
    n = min(len(pa), len(pb))
    if pa[:n] != pb[:n]:
        return False
    pairs, rest = _align(a, b)
    if pairs is not None:
        conds = []
        need_q = False
        for x, y in pairs:
            r = _seg_eq(x, y)
            if r is False:
                if isinstance(x.n, int):
                    return False
                r = (x.n == 0)
            if r is None:
                need_q = True
                break
            conds.append(r)
        if not need_q:
            return b_and(leneq, *conds)
    # general case: skolem position
    if (isinstance(na, int) and na <= 96):
        return _finite_eq(a, b, na, leneq)
    if isinstance(nb, int) and nb <= 96:
        return _finite_eq(a, b, nb, leneq)
    k = var(E.fresh('k'), 0, 1 << 62) if E.mode != 'bv' else var(E.fresh('k'), 0, (1 << 40) - 1)
    ne = z3.Or(bexpr(b_not(leneq)),
               z3.And(bexpr(leneq), bexpr(k < na), elem_z(a, k) != elem_z(b, k)))
    return SymBool(None, ne)


def _finite_eq(a, b, n, leneq):
    conds = [leneq]
    for i in range(n):
        conds.append(mk_bool(z3.simplify(elem_z(a, i) == elem_z(b, i))))
    return b_and(*conds)


def byte_z(v):
    """z3 byte term of a cell value"""
    if E.mode == 'bv':
        if isinstance(v, int):
            return z3.BitVecVal(v, 8)
        return z3.Extract(7, 0, v.at(9) if v.e.size() < 9 else v.e)
    return z(v)


def elem_z(segs, k):
    """z3 byte term for position k of the rope (no forks)"""
    pos = 0
    parts = []
    for s in segs:
        parts.append((pos, s))
        pos = pos + s.n
    out = z3.BitVecVal(0, 8) if E.mode == 'bv' else z3.IntVal(-1)
    for pos, s in reversed(parts):
        rel = k - pos
        if isinstance(rel, int):
            if isinstance(s.n, int):
                if rel < 0:
                    continue
                if rel >= s.n:
                    continue
                out = byte_z(s.at(rel))
                continue
        inside = b_and(rel >= 0, rel < s.n)
        if inside is False:
            continue
        if isinstance(s, Src):
            t = s.s.elem_z(s.a + rel)
        elif isinstance(s, Fill):
            t = byte_z(s.v)
        else:
            vals = list(s.b) if isinstance(s, Lit) else s.v
            t = byte_z(_table(vals, rel))
        out = z3.If(bexpr(inside), t, out) if inside is not True else t
    return out


def _table(vals, i):
    if isinstance(i, int):
        return vals[i] if 0 <= i < len(vals) else 0
    out = 0
    lo = 0 if i.lo is None else max(0, i.lo)
    hi = len(vals) - 1 if i.hi is None else min(len(vals) - 1, i.hi)
    if hi - lo > 4000:
        raise Unsupported('large literal under a symbolic position')
    for j in range(hi, lo - 1, -1):
        out = ite(i == j, vals[j], out)
    return out


def _num(vals):
    """big-endian bit vector of cells (bv mode)"""
    es = [byte_z(v) for v in vals]
    return es[0] if len(es) == 1 else z3.Concat(*es)


def rope_less(a, b, strict):
    na, nb = total(a), total(b)
    if not isinstance(na, int) or not isinstance(nb, int):
        raise Unsupported('ordering of symbolic-length byte strings')
    n = min(na, nb)
    va = [elem_cell(a, i) for i in range(n)]
    vb = [elem_cell(b, i) for i in range(n)]
    tie = (na < nb) if strict else (na <= nb)
    if n == 0:
        return tie
    if E.mode == 'bv':
        x, y = _num(va), _num(vb)
        e = z3.Or(z3.ULT(x, y), z3.And(x == y, z3.BoolVal(tie)))
        return mk_bool(z3.simplify(e))
    out = tie
    for i in range(n - 1, -1, -1):
        out = b_or(va[i] < vb[i], b_and(va[i] == vb[i], out))
    return out


def elem_cell(segs, i):
    pos = 0
    for s in segs:
        if not isinstance(s.n, int):
            raise Unsupported('element of symbolic-length rope')
        if i < pos + s.n:
            return s.at(i - pos)
        pos += s.n
    raise IndexError(i)


# ---------------------------------------------------------------- numbers
def int_to_cells(x, n, order='big', kind='bytes'):
    cells = [(x >> (8 * j)) & 0xff if j else x & 0xff for j in range(n)]
    if isinstance(x, SymInt) and x.lo is not None and x.lo >= 0 and x.hi is not None and x.hi < 1 << (8 * n):
        for j, c in enumerate(cells):
            if isinstance(c, SymInt) and c is not x:
                c.tag = ('cell', x, j)
    if order == 'big':
        cells.reverse()
    return mk([Cells(cells)], kind)


def cells_to_int(cells, order='big'):
    if order == 'little':
        cells = cells[::-1]
    # put together again exactly what was taken apart
    for k, c in enumerate(reversed(cells)):
        t = c.tag if isinstance(c, SymInt) else None
        if t is not None and t[0] == 'cell':
            x = t[1]
            if x.hi < 1 << (8 * len(cells)) and all(
                    (d.tag is not None and d.tag[0] == 'cell' and d.tag[1] is x and d.tag[2] == j) if isinstance(d, SymInt)
                    else (d == 0 and x.hi < 1 << (8 * j)) for j, d in enumerate(reversed(cells))):
                return x
            break
    out = 0
    for c in cells:
        out = (out << 8) + c
    return out


def to_hex(x, kind):
    out = []
    for v in (x.cells() if isinstance(x, SymBytes) else list(x)):
        for nib in ((v >> 4) & 15, v & 15):
            if isinstance(nib, int):
                out.append(ord('%x' % nib))
            else:
                out.append(ite(nib < 10, nib + 48, nib + 87))
    return mk([Cells(out)], kind)


def from_hex(x, exc):
    cs = x.cells() if isinstance(x, SymBytes) else list(x.encode() if isinstance(x, str) else x)
    if len(cs) % 2:
        raise exc('Odd-length string')
    vals = []
    for c in cs:
        if isinstance(c, int):
            try:
                vals.append(int(chr(c), 16))
            except ValueError:
                raise exc('Non-hexadecimal digit found')
            continue
        dig = b_and(c >= 48, c <= 57)
        low = b_and(c >= 97, c <= 102)
        up = b_and(c >= 65, c <= 70)
        if not b_or(dig, low, up):
            raise exc('Non-hexadecimal digit found')
        v = ite(dig, c - 48, ite(low, c - 87, c - 55))
        vals.append(refine(v, 0, 15))
    out = [(vals[i] << 4) + vals[i + 1] for i in range(0, len(vals), 2)]
    return mk([Cells(out)], 'bytes')


def dec_cells(n):
    """decimal text of a non-negative symbolic integer; forks on the digit count"""
    if n < 0:
        return [45] + dec_cells(-n)
    d = 1
    while not (n < 10 ** d):
        d += 1
        if d > 25:
            raise Unsupported('decimal conversion too long')
    if d == 1:
        return [48 + refine(n, 0, 9)]
    out = [48 + refine(n // 10 ** (d - 1), 1, 9)]
    for i in range(1, d):
        out.append(48 + (n // 10 ** (d - 1 - i)) % 10)
    return out


def parse_dec(x):
    """int(x) of a rope of decimal digits"""
    cs = x.cells()
    if not cs:
        raise ValueError('invalid literal for int()')
    out = 0
    for c in cs:
        if not b_and(c >= 48, c <= 57):
            raise ValueError('invalid literal for int()')
        out = out * 10 + (c - 48)
    return out
