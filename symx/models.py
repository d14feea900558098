"""Models of builtins and library functions that the code under test reaches with
symbolic data, and the dispatcher that selects them."""
import array as _array
import binascii
import builtins
import codecs
import contextlib
import functools
import hashlib
import io
import itertools
import mmap as _mmap
import operator
import os
import re
import struct
import time
import types
import zlib

from .core import E, SymBool, Unsupported, b_and, b_or, b_not, bexpr, mk_bool
from .ints import SymInt, ite, is_sym
from .ropes import (SymBytes, pin, mk, segs_of, Lit, Cells, Src, Fill, norm_slice, split, total, rope_repeat,
                    int_to_cells, cells_to_int, to_hex, from_hex, dec_cells, parse_dec, elem_cell)

SYM = (SymInt, SymBytes, SymBool)


def symbolic(x, depth=2):
    if isinstance(x, SYM):
        return True
    if getattr(type(x), '_sx_sym', False):
        return True
    if depth and isinstance(x, (list, tuple)) and len(x) < 1000:
        return any(symbolic(y, depth - 1) for y in x)
    return False


def enter(rel, q):
    E.stats.fns.add(rel + ':' + q)


# ---------------------------------------------------------------- containers
class SxDict(dict):
    """dict that tolerates symbolic keys (association list beside the native table)"""
    __slots__ = ('_s',)

    def __init__(self, *a, **k):
        self._s = []
        dict.__init__(self)
        if a:
            src = a[0]
            if isinstance(src, dict):
                for kk, v in src.items():
                    self[kk] = v
            else:
                for kk, v in src:
                    self[kk] = v
        for kk, v in k.items():
            self[kk] = v

    def _find(self, k):
        """('n', key) / ('s', index) / None; forks when undecided"""
        if not symbolic(k):
            for i, (sk, _) in enumerate(self._s):
                if sk == k:
                    return ('s', i)
            if dict.__contains__(self, k):
                return ('n', k)
            return None
        for i, (sk, _) in enumerate(self._s):
            if sk is k or sk == k:
                return ('s', i)
        for nk in dict.keys(self):
            if k == nk:
                return ('n', nk)
        return None

    def __getitem__(self, k):
        f = self._find(k)
        if f is None:
            raise KeyError(k)
        return dict.__getitem__(self, f[1]) if f[0] == 'n' else self._s[f[1]][1]

    def __setitem__(self, k, v):
        if not self._s and not symbolic(k):
            dict.__setitem__(self, k, v)
            return
        f = self._find(k)
        if f is None:
            if symbolic(k):
                self._s.append((k, v))
            else:
                dict.__setitem__(self, k, v)
        elif f[0] == 'n':
            dict.__setitem__(self, f[1], v)
        else:
            self._s[f[1]] = (self._s[f[1]][0], v)

    def __delitem__(self, k):
        f = self._find(k)
        if f is None:
            raise KeyError(k)
        if f[0] == 'n':
            dict.__delitem__(self, f[1])
        else:
            del self._s[f[1]]

    def __contains__(self, k):
        return self._find(k) is not None

    def get(self, k, d=None):
        f = self._find(k)
        if f is None:
            return d
        return dict.__getitem__(self, f[1]) if f[0] == 'n' else self._s[f[1]][1]

    def pop(self, k, *d):
        f = self._find(k)
        if f is None:
            if d:
                return d[0]
            raise KeyError(k)
        v = self[k]
        del self[k]
        return v

    def setdefault(self, k, d=None):
        f = self._find(k)
        if f is None:
            self[k] = d
            return d
        return self[k]

    def __len__(self):
        return dict.__len__(self) + len(self._s)

    def __iter__(self):
        if not self._s:
            return dict.__iter__(self)
        return iter(list(dict.keys(self)) + [k for k, _ in self._s])

    def keys(self):
        if not self._s:
            return dict.keys(self)
        return list(iter(self))

    def values(self):
        if not self._s:
            return dict.values(self)
        return list(dict.values(self)) + [v for _, v in self._s]

    def items(self):
        if not self._s:
            return dict.items(self)
        return list(dict.items(self)) + list(self._s)

    def clear(self):
        dict.clear(self)
        self._s.clear()

    def update(self, *a, **k):
        for kk, v in SxDict(*a, **k).items():
            self[kk] = v

    def copy(self):
        return SxDict(self)

    def __bool__(self):
        return len(self) > 0

    def __eq__(self, o):
        if self._s or getattr(o, '_s', None):
            raise Unsupported('comparison of symbolic dicts')
        return dict.__eq__(self, o)

    __hash__ = None


# ---------------------------------------------------------------- file-like models
class SxBytesIO:
    _held = True

    def __init__(self, initial_bytes=b''):
        E.guard()
        s = segs_of(initial_bytes)
        if s is None:
            raise TypeError('a bytes-like object is required')
        self._r = mk(s)
        self._p = 0
        self.closed = False

    def _chk(self):
        E.guard()
        if self.closed:
            raise ValueError('I/O operation on closed file.')

    def read(self, size=-1):
        self._chk()
        n = m_len(self._r)
        if size is None or size < 0:
            end = n
        else:
            end = self._p + size
            if end > n:
                end = n
        d = self._r[self._p:end] if not (self._p >= n) else b''
        self._p = self._p + m_len(d)
        return d
    read1 = read

    def readinto(self, b):
        raise Unsupported('readinto')

    def write(self, data):
        self._chk()
        s = segs_of(data)
        if s is None:
            raise TypeError('a bytes-like object is required')
        n, ln = total(s), m_len(self._r)
        if not (n > 0):
            return 0
        p = self._p
        base = self._r
        if p > ln:
            base = base + rope_repeat(b'\0', p - ln)
            ln = p
        if p == ln:
            self._r = mk(tuple(segs_of(base)) + tuple(s))
        else:
            head = m_slice(base, 0, p)
            e = p + n
            tail = m_slice(base, e, ln) if e < ln else b''
            self._r = mk(tuple(segs_of(head)) + tuple(s) + tuple(segs_of(tail)))
        self._p = p + n
        if E.alloc is not None and self._held:
            E.note(m_len(self._r))
        return n

    def seek(self, pos, whence=0):
        self._chk()
        if whence == 0:
            if pos < 0:
                raise ValueError('negative seek value')
            self._p = pos
        elif whence == 1:
            self._p = self._p + pos
        else:
            self._p = m_len(self._r) + pos
        return self._p

    def tell(self):
        self._chk()
        return self._p

    def getvalue(self):
        self._chk()
        return self._r

    def getbuffer(self):
        self._chk()
        return mk(segs_of(self._r), 'memoryview')

    def truncate(self, size=None):
        self._chk()
        if size is None:
            size = self._p
        if size < m_len(self._r):
            self._r = self._r[:size]
        return size

    def close(self):
        self.closed = True

    def flush(self):
        pass

    def readable(self):
        return True

    writable = seekable = readable

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def readline(self, size=-1):
        self._chk()
        n = m_len(self._r)
        if self._p >= n:
            return b''
        rest = self._r[self._p:]
        i = rest.find(b'\n')
        d = rest if i < 0 else rest[:i + 1]
        if size is not None and size >= 0:
            d = d[:size]
        self._p = self._p + m_len(d)
        return d

    def __iter__(self):
        while True:
            d = self.readline()
            if not m_len(d) > 0:
                return
            yield d

    def readlines(self, hint=-1):
        return list(self)


def conv_pinned(fmt, v):
    return fmt % E.pin([v], 'formatting of a symbolic int')[0]


class SxMemMap:
    """mmap.mmap object: fixed size, position, slicing.  Read-only when it maps a file"""
    _sx_sym = True

    def __init__(self, rope, readonly, node=None):
        self._r = rope
        self._p = 0
        self._ro = readonly
        self._node = node
        self.closed = False

    def _chk(self):
        E.guard()
        if self.closed:
            raise ValueError('mmap closed or invalid')

    def _sx_rope(self):
        self._chk()
        r = self._r
        return r if isinstance(r, SymBytes) else SymBytes(segs_of(r))

    def _sx_len(self):
        self._chk()
        return m_len(self._r)

    def __len__(self):
        n = self._sx_len()
        return n if isinstance(n, int) else E.concretize(n, 64, 'mmap length')

    def size(self):
        return self._sx_len()

    def __getitem__(self, i):
        self._chk()
        if isinstance(i, slice):
            return m_slice(self._r, i.start, i.stop)
        return get(self._r, i)

    def __iter__(self):
        # iterating a real mmap yields bytes of length one
        i = 0
        while i < self._sx_len():
            E.tick()
            yield m_slice(self._r, i, i + 1)
            i += 1

    def __setitem__(self, i, v):
        self._chk()
        if self._ro:
            raise TypeError("mmap can't modify a readonly memory map.")
        n = m_len(self._r)
        if isinstance(i, slice):
            a, b = norm_slice(i.start, i.stop, n)
            if not (m_len(v) == b - a):
                raise IndexError('mmap slice assignment is wrong size')
            self._overlay(a, v)
        else:
            self._overlay(i, mk([Cells([v])]))

    def _overlay(self, p, data):
        n, ln = m_len(data), m_len(self._r)
        if not (n > 0):
            return
        head = m_slice(self._r, 0, p)
        tail = m_slice(self._r, p + n, ln)
        self._r = mk(tuple(segs_of(head)) + tuple(segs_of(data)) + tuple(segs_of(tail)))

    def read(self, n=None):
        self._chk()
        ln = m_len(self._r)
        left = ln - self._p
        if n is None or n < 0 or n > left:
            n = left
        d = m_slice(self._r, self._p, self._p + n)
        self._p = self._p + n
        return d

    def read_byte(self):
        raise Unsupported('mmap.read_byte')

    def write(self, data):
        self._chk()
        if segs_of(data) is None:
            raise TypeError('a bytes-like object is required')
        if self._ro:
            raise TypeError("mmap can't modify a readonly memory map.")
        n = m_len(data)
        if n > m_len(self._r) - self._p:
            raise ValueError('data out of range')
        self._overlay(self._p, data)
        self._p = self._p + n
        return n

    def seek(self, pos, whence=0):
        self._chk()
        if whence == 1:
            pos = self._p + pos
        elif whence == 2:
            pos = m_len(self._r) + pos
        if pos < 0 or pos > m_len(self._r):
            raise ValueError('seek out of range')
        self._p = pos

    def tell(self):
        return self._p

    def flush(self, *a):
        pass

    def find(self, sub, start=None, end=None):
        self._chk()
        r = self._r if isinstance(self._r, SymBytes) else SymBytes(segs_of(self._r))
        return r.find(sub, self._p if start is None else start, end)

    def close(self):
        self.closed = True
        if self._node is not None:
            self._node.maps.discard(id(self))

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def resize(self, *a):
        raise Unsupported('mmap.resize')


class SxByteArray:
    """bytearray with symbolic contents"""
    _sx_sym = True

    def __init__(self, init=b''):
        if isinstance(init, (int, SymInt)):
            init = rope_repeat(b'\0', init)
        elif segs_of(init) is None:
            init = mk([Cells(list(init))])
        self._r = mk(segs_of(init))

    def _sx_rope(self):
        return self._r if isinstance(self._r, SymBytes) else SymBytes(segs_of(self._r))

    def _sx_len(self):
        return m_len(self._r)

    def __len__(self):
        n = m_len(self._r)
        return n if isinstance(n, int) else E.concretize(n, 64, 'bytearray length')

    def append(self, v):
        if v < 0 or v > 255:
            raise ValueError('byte must be in range(0, 256)')
        self._r = mk(tuple(segs_of(self._r)) + (Cells([v]),))

    def extend(self, o):
        s = segs_of(o)
        if s is None:
            for v in o:
                self.append(v)
            return
        self._r = mk(tuple(segs_of(self._r)) + tuple(s))

    def __iadd__(self, o):
        self.extend(o)
        return self

    def insert(self, i, v):
        self._r = mk(tuple(segs_of(m_slice(self._r, None, i))) + (Cells([v]),) + tuple(segs_of(m_slice(self._r, i, None))))

    def reverse(self):
        c = SymBytes(segs_of(self._r)).cells()
        self._r = mk([Cells(c[::-1])])

    def __getitem__(self, i):
        if isinstance(i, slice):
            return SxByteArray(m_slice(self._r, i.start, i.stop))
        return get(self._r, i)

    def __setitem__(self, i, v):
        n = m_len(self._r)
        if isinstance(i, slice):
            a, b = norm_slice(i.start, i.stop, n)
            if b < a:
                b = a
            self._r = mk(tuple(segs_of(m_slice(self._r, 0, a))) + tuple(segs_of(v)) +
                         tuple(segs_of(m_slice(self._r, b, n))))
            return
        if i < 0:
            i = i + n
        if i < 0 or i >= n:
            raise IndexError('bytearray index out of range')
        self._r = mk(tuple(segs_of(m_slice(self._r, 0, i))) + (Cells([v]),) + tuple(segs_of(m_slice(self._r, i + 1, n))))

    def __delitem__(self, i):
        n = m_len(self._r)
        if isinstance(i, slice):
            a, b = norm_slice(i.start, i.stop, n)
        else:
            a, b = i, i + 1
        self._r = mk(tuple(segs_of(m_slice(self._r, 0, a))) + tuple(segs_of(m_slice(self._r, b, n))))

    def __iter__(self):
        return iter(SymBytes(segs_of(self._r)))

    def __reversed__(self):
        return reversed(SymBytes(segs_of(self._r)).cells())

    def __add__(self, o):
        return SxByteArray(mk(tuple(segs_of(self._r)) + tuple(segs_of(o))))

    def __radd__(self, o):
        return mk(tuple(segs_of(o)) + tuple(segs_of(self._r)), 'bytes')

    def __eq__(self, o):
        so = segs_of(o)
        if so is None:
            return False
        return SymBytes(segs_of(self._r)) == mk(so)

    def __ne__(self, o):
        return b_not(self.__eq__(o))

    def __bool__(self):
        return bool(m_len(self._r) > 0)

    def find(self, *a):
        return self._sx_rope().find(*a)

    def startswith(self, p):
        return self._sx_rope().startswith(p)

    __hash__ = None


# ---------------------------------------------------------------- helpers
def m_len(x):
    if isinstance(x, SymBytes):
        return x.len
    f = getattr(x, '_sx_len', None) if hasattr(type(x), '_sx_len') else None
    if f is not None:
        return f()
    return len(x)


def m_slice(r, a, b):
    return get(r, slice(a, b))


def get(o, i):
    """o[i]"""
    E.guard()
    if isinstance(o, SymBytes):
        return o[i]
    if isinstance(i, slice):
        if symbolic((i.start, i.stop)):
            if isinstance(o, (bytes, bytearray, memoryview)):
                return SymBytes(segs_of(o), 'bytes' if isinstance(o, bytes) else type(o).__name__)[i]
            if isinstance(o, str):
                return SymBytes(segs_of(o), 'str')[i]
            if isinstance(o, (list, tuple)):
                n = len(o)
                a, b = norm_slice(i.start, i.stop, n)
                a = E.concretize(a, 300, 'slice bound')
                b = E.concretize(b, 300, 'slice bound')
                return o[a:b]
        return o[i]
    if isinstance(i, SymInt):
        if isinstance(o, (bytes, bytearray, memoryview)):
            return SymBytes(segs_of(o))[i]
        if isinstance(o, (list, tuple)):
            n = len(o)
            if i < 0:
                i = i + n
                if i < 0:
                    raise IndexError('list index out of range')
            elif not (i < n):
                raise IndexError('list index out of range')
            if all(isinstance(v, (int, SymInt)) and not isinstance(v, bool) for v in o):
                from .ropes import _select
                return _select(list(o), i) if isinstance(i, SymInt) else o[i]
            return o[E.concretize(i, 600, 'list index')]
        if isinstance(o, (dict,)) and not isinstance(o, SxDict):
            return SxDict(o)[i]
    elif isinstance(i, SymBytes) and isinstance(o, dict) and not isinstance(o, SxDict):
        return SxDict(o)[i]
    return o[i]


def set_(o, i, v):
    E.guard()
    if isinstance(i, SymInt) and isinstance(o, list):
        n = len(o)
        if i < 0:
            i = i + n
        if i < 0 or i >= n:
            raise IndexError('list assignment index out of range')
        if isinstance(i, SymInt) and all(isinstance(x, (int, SymInt)) for x in o) and isinstance(v, (int, SymInt)):
            for j in range(n):
                o[j] = ite(i == j, v, o[j])
            return
        i = E.concretize(i, 600, 'list index')
    elif symbolic(i) and isinstance(o, dict) and not isinstance(o, SxDict):
        raise Unsupported('symbolic key stored in a native dict')
    elif isinstance(o, bytearray) and symbolic(v):
        raise Unsupported('symbolic byte stored in a native bytearray')
    o[i] = v


AUG = {'Add': operator.iadd, 'Sub': operator.isub, 'Mult': operator.imul, 'FloorDiv': operator.ifloordiv,
       'Mod': operator.imod, 'LShift': operator.ilshift, 'RShift': operator.irshift, 'BitOr': operator.ior,
       'BitAnd': operator.iand, 'BitXor': operator.ixor, 'Div': operator.itruediv, 'Pow': operator.ipow}


def aug(o, i, op, v):
    if op in ('Add', 'Sub') and isinstance(i, SymInt) and isinstance(o, list) and isinstance(v, (int, SymInt)) and \
            all(isinstance(x, (int, SymInt)) for x in o):
        n = len(o)
        if i < 0:
            i = i + n
        if i < 0 or i >= n:
            raise IndexError('list index out of range')
        for j in range(n):
            d = ite(i == j, v, 0)
            o[j] = o[j] + d if op == 'Add' else o[j] - d
        return
    set_(o, i, AUG[op](get(o, i), v))


def in_(x, c):
    E.guard()
    if isinstance(c, SymBytes):
        return c.__contains__(x)
    if symbolic(x):
        if isinstance(c, (bytes, bytearray)):
            return SymBytes(segs_of(c)).__contains__(x)
        if isinstance(c, str):
            return SymBytes(segs_of(c), 'str').__contains__(x)
        if isinstance(c, range):
            if c.step == 1:
                return bool(b_and(x >= c.start, x < c.stop))
            c = tuple(c)
        if isinstance(c, (set, frozenset)) or isinstance(c, dict) and not isinstance(c, SxDict):
            for y in list(c):
                if x == y:
                    return True
            return False
    return x in c


def is_(x, c):
    if isinstance(x, SymBool):
        return bool(x) is c
    return x is c


def tick():
    E.tick()


# ---------------------------------------------------------------- formatting
_FMT = re.compile(r'%(?:\((\w+)\))?([-#0 +]*)(\d+)?(?:\.(\d+))?([diouxXeEfFgGcrsa%])')


def _fmt_piece(conv, flags, width, v, kind):
    if not symbolic(v):
        return None
    if conv in 'di' or (conv == 's' and isinstance(v, SymInt)):
        r = mk([Cells(dec_cells(v))], 'str')
        if width:
            n = m_len(r)
            if n < int(width):
                r = ('0' if '0' in flags else ' ') * (int(width) - n) + r
        return r
    if conv == 's' and isinstance(v, SymBytes) and (v.kind == 'str' or kind == 'bytes'):
        return mk(v.segs, 'str')
    if conv == 'x' and isinstance(v, SymInt) and width and '0' in flags:
        w = int(width)
        if not (v < 16 ** w):
            return conv_pinned('%0' + width + 'x', v)
        cells = []
        for j in range(w - 1, -1, -1):
            nib = (v >> (4 * j)) & 15
            cells.append(ite(nib < 10, nib + 48, nib + 87) if is_sym(nib) else ord('%x' % nib))
        return mk([Cells(cells)], 'str')
    return '<symbolic>'


def m_format(fmt, args):
    E.guard()
    kind = 'bytes' if isinstance(fmt, (bytes, bytearray)) else 'str'
    if isinstance(args, dict):
        seq = None
    else:
        seq = list(args) if isinstance(args, tuple) else [args]
    if isinstance(fmt, SymBytes):
        raise Unsupported('symbolic format string')
    if not any(symbolic(a) for a in (seq if seq is not None else args.values())):
        return fmt % args
    f = fmt.decode('latin-1') if kind == 'bytes' else fmt
    out = []
    pos = 0
    k = 0
    for m in _FMT.finditer(f):
        out.append(f[pos:m.start()])
        pos = m.end()
        conv = m.group(5)
        if conv == '%':
            out.append('%')
            continue
        if m.group(1):
            v = args[m.group(1)]
        else:
            if k >= len(seq):
                raise TypeError('not enough arguments for format string')
            v = seq[k]
            k += 1
        p = _fmt_piece(conv, m.group(2), m.group(3), v, kind)
        if p is None:
            one = '%' + m.group(2) + (m.group(3) or '') + ('.' + m.group(4) if m.group(4) else '') + conv
            if kind == 'bytes':
                p = (one.encode() % (v,)).decode('latin-1')
            else:
                p = one % (v,)
        out.append(p)
    out.append(f[pos:])
    if seq is not None and k != len(seq):
        raise TypeError('not all arguments converted during string formatting')
    segs = []
    for p in out:
        segs.extend(segs_of(p))
    return mk(segs, kind)


def mod(a, b):
    if isinstance(a, (str, bytes, bytearray)):
        if symbolic(b, 3) or (isinstance(b, dict) and any(symbolic(v) for v in b.values())):
            return m_format(a, b)
    return a % b


def fstr(parts):
    segs = []
    for p in parts:
        if isinstance(p, str):
            segs.extend(segs_of(p))
            continue
        v, conv, spec = p
        if symbolic(v):
            if conv in (-1, 115) and isinstance(v, SymInt) and spec in ('', 'd'):
                segs.extend(segs_of(mk([Cells(dec_cells(v))], 'str')))
            elif conv in (-1, 115) and isinstance(v, SymBytes) and v.kind == 'str' and not spec:
                segs.extend(v.segs)
            else:
                segs.extend(segs_of('<symbolic>'))
            continue
        if conv == 114:
            v = repr(v)
        elif conv == 115:
            v = str(v)
        elif conv == 97:
            v = ascii(v)
        segs.extend(segs_of(format(v, spec)))
    return mk(segs, 'str')


# ---------------------------------------------------------------- builtins
def m_ord(c):
    if isinstance(c, SymBytes):
        n = c.len
        if not isinstance(n, int):
            n = E.concretize(n, 4, 'length')
        if n != 1:
            raise TypeError('ord() expected a character')
        return c.at(0)
    if isinstance(c, SymInt):
        raise TypeError('ord() expected string of length 1, but int found')
    return ord(c)


def m_chr(i):
    if is_sym(i):
        return mk([Cells([i])], 'str')
    return chr(i)


def m_int(x=0, *a, **k):
    if isinstance(x, SymBool):
        return x._as_int()
    if isinstance(x, SymInt):
        return x
    if isinstance(x, SymBytes):
        if a and a[0] != 10:
            raise Unsupported('int() with base')
        return parse_dec(x)
    return int(x, *a, **k)


def m_bool(x=False):
    return bool(x)


def m_str(x='', *a, **k):
    if isinstance(x, SymInt):
        return mk([Cells(dec_cells(x))], 'str')
    if isinstance(x, SymBytes):
        if x.kind == 'str' or a or k:
            return mk(x.segs, 'str')
        return '<symbolic>'
    return str(x, *a, **k)


def m_repr(x):
    return '<symbolic>' if symbolic(x) else repr(x)


def m_bytes(x=b'', *a, **k):
    if E.alloc is not None and (hasattr(type(x), '_sx_rope') or isinstance(x, SymBytes)):
        E.note(m_len(x))
    if isinstance(x, SymBytes):
        if x.kind == 'str':
            return mk(x.segs, 'bytes')
        return mk(x.segs, 'bytes')
    if isinstance(x, SymInt):
        if x < 0:
            raise ValueError('negative count')
        return rope_repeat(b'\0', x)
    if hasattr(type(x), '_sx_rope'):
        return mk(segs_of(x), 'bytes')
    if isinstance(x, (list, tuple)) and any(is_sym(v) for v in x):
        for v in x:
            if is_sym(v) and not b_and(v >= 0, v <= 255):
                raise ValueError('bytes must be in range(0, 256)')
        return mk([Cells(list(x))], 'bytes')
    if isinstance(x, types.GeneratorType) or isinstance(x, (map, filter, reversed, itertools.chain)):
        return m_bytes(list(x))
    return bytes(x, *a, **k)


def m_bytearray(x=b'', *a):
    if a:
        return SxByteArray(x.encode(*a))
    return SxByteArray(x)


def m_memoryview(x):
    if isinstance(x, SymBytes):
        return mk(x.segs, 'memoryview')
    if hasattr(type(x), '_sx_rope'):
        return mk(segs_of(x), 'memoryview')
    return memoryview(x)


def m_range(*a):
    if not any(is_sym(x) for x in a):
        return range(*a)
    lo, hi, st = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], a[2] if len(a) > 2 else 1)
    if is_sym(st):
        st = E.concretize(st, 16, 'range step')
    return SxRange(lo, hi, st)


class SxRange:
    def __init__(self, lo, hi, st):
        self.lo, self.hi, self.st = lo, hi, st

    def __iter__(self):
        i = self.lo
        while (i < self.hi) if self.st > 0 else (i > self.hi):
            E.tick()
            yield i
            i = i + self.st

    def _sx_len(self):
        d = (self.hi - self.lo + self.st - 1) // self.st if self.st > 0 else (self.lo - self.hi - self.st - 1) // -self.st
        return m_max(d, 0)

    def __reversed__(self):
        return reversed(list(self))


def m_max(*a, **k):
    if len(a) == 1:
        a = list(a[0])
        if not a:
            if 'default' in k:
                return k['default']
            raise ValueError('max() iterable argument is empty')
    key = k.get('key')
    best = a[0]
    for x in a[1:]:
        if (x > best) if key is None else (call(key, x) > call(key, best)):
            best = x
    return best


def m_min(*a, **k):
    if len(a) == 1:
        a = list(a[0])
        if not a:
            if 'default' in k:
                return k['default']
            raise ValueError('min() iterable argument is empty')
    key = k.get('key')
    best = a[0]
    for x in a[1:]:
        if (x < best) if key is None else (call(key, x) < call(key, best)):
            best = x
    return best


def m_sum(it, start=0):
    for x in it:
        start = start + x
    return start


def m_abs(x):
    return abs(x)


def m_list(*a):
    if a and isinstance(a[0], (SymBytes, SxRange, SxMemMap, SxByteArray)):
        return [x for x in iter(a[0])]
    return list(*a)


def m_tuple(*a):
    if a and isinstance(a[0], (SymBytes, SxRange, SxMemMap, SxByteArray)):
        return tuple([x for x in iter(a[0])])
    return tuple(*a)


def m_map(f, *its):
    if not symbolic(f) and not isinstance(f, type) and isinstance(f, types.FunctionType):
        return map(f, *its)
    return map(lambda *x: call(f, *x), *its)


def m_filter(f, it):
    if f is None:
        return filter(None, it)
    return filter(lambda x: call(f, x), it)


def m_reduce(f, it, *init):
    return functools.reduce(lambda a, b: call(f, a, b), it, *init)


def m_sorted(it, key=None, reverse=False):
    l = [x for x in it]
    return sorted(l, key=None if key is None else (lambda x: call(key, x)), reverse=reverse)


def m_set(*a):
    return set(*a)


KINDS = {'bytes': bytes, 'str': str, 'bytearray': bytearray, 'memoryview': memoryview, 'mmap': _mmap.mmap}


def _virt(x):
    if isinstance(x, SymBytes):
        return KINDS[x.kind]
    if isinstance(x, SymInt):
        return int
    if isinstance(x, SymBool):
        return bool
    if isinstance(x, SxMemMap):
        return _mmap.mmap
    if isinstance(x, SxByteArray):
        return bytearray
    if isinstance(x, SxBytesIO):
        return io.BytesIO
    if isinstance(x, SxDict):
        return dict
    return None


def m_isinstance(x, t):
    v = _virt(x)
    if v is None:
        return isinstance(x, t)
    if isinstance(t, tuple):
        return any(m_isinstance(x, y) for y in t)
    if isinstance(t, types.UnionType):
        return any(m_isinstance(x, y) for y in t.__args__)
    return issubclass(v, t)


def m_type(*a):
    if len(a) == 1:
        return _virt(a[0]) or type(a[0])
    return type(*a)


def m_callable(x):
    return callable(x)


def m_divmod(a, b):
    return (a // b, a % b)


def m_pow(a, b, *c):
    if is_sym(b):
        b = E.concretize(b, 64, 'exponent')
    if is_sym(a):
        out = 1
        for _ in range(b):
            out = out * a
        return out
    return pow(a, b, *c)


def m_hash(x):
    return hash(x)


def m_islice(it, *a):
    a = [E.concretize(x, 300, 'islice bound') if is_sym(x) else x for x in a]
    if isinstance(it, SymBytes):
        it = iter(it)
    return itertools.islice(it, *a)


def m_hex(x):
    if is_sym(x):
        return hex(E.pin([x], 'hex() of a symbolic int')[0])
    return hex(x)


# ---------------------------------------------------------------- struct
_CODES = {'B': (1, False), 'b': (1, True), 'H': (2, False), 'h': (2, True), 'L': (4, False), 'l': (4, True),
          'I': (4, False), 'i': (4, True), 'Q': (8, False), 'q': (8, True)}
_NATIVE = {'L': 8, 'l': 8}


def _parse_fmt(fmt):
    if isinstance(fmt, bytes):
        fmt = fmt.decode()
    order = '>'
    native = True
    if fmt and fmt[0] in '<>!=@':
        order = '<' if fmt[0] in '<=@' else '>'
        native = fmt[0] == '@'
        fmt = fmt[1:]
    else:
        order = '<'
    items = []
    for n, c in re.findall(r'(\d*)([a-zA-Z?])', fmt):
        if c == 's':
            items.append(('s', int(n) if n else 1, None))
        elif c == 'x':
            items.append(('x', int(n) if n else 1, None))
        elif c in _CODES:
            size = _NATIVE.get(c, _CODES[c][0]) if native else _CODES[c][0]
            for _ in range(int(n) if n else 1):
                items.append((c, size, _CODES[c][1]))
        else:
            raise Unsupported('struct format ' + c)
    if native and len({i[1] for i in items}) > 1:
        raise Unsupported('native struct alignment')
    return order, items


def m_unpack_from(fmt, buf, offset=0):
    E.guard()
    if not symbolic(buf) and not is_sym(offset) and segs_of(buf) is not None and not isinstance(buf, SxMemMap):
        return struct.unpack_from(fmt, buf, offset)
    order, items = _parse_fmt(fmt)
    size = sum(i[1] for i in items)
    n = m_len(buf)
    if offset < 0:
        offset = offset + n
        if offset < 0:
            raise struct.error('offset out of range')
    if offset + size > n:
        raise struct.error('unpack_from requires a buffer of at least %d bytes' % size)
    rope = mk(segs_of(buf), 'bytes')
    chunk = m_slice(rope, offset, offset + size)
    out = []
    p = 0
    for c, w, signed in items:
        if c == 's':
            out.append(m_slice(chunk, p, p + w))
        elif c != 'x':
            cells = [get(chunk, p + j) for j in range(w)]
            v = cells_to_int(cells, 'big' if order == '>' else 'little')
            if signed:
                v = ite(v >= (1 << (8 * w - 1)), v - (1 << (8 * w)), v) if is_sym(v) else \
                    v - (1 << (8 * w)) if v >= 1 << (8 * w - 1) else v
            out.append(v)
        p += w
    return tuple(out)


def m_unpack(fmt, buf):
    order, items = _parse_fmt(fmt)
    size = sum(i[1] for i in items)
    if not (m_len(buf) == size):
        raise struct.error('unpack requires a buffer of %d bytes' % size)
    return m_unpack_from(fmt, buf, 0)


def m_pack(fmt, *args):
    E.guard()
    if not symbolic(args):
        return struct.pack(fmt, *args)
    order, items = _parse_fmt(fmt)
    segs = []
    k = 0
    for c, w, signed in items:
        if c == 'x':
            segs.append(Lit(b'\0' * w))
            continue
        v = args[k]
        k += 1
        if c == 's':
            r = m_slice(v, 0, w)
            segs.extend(segs_of(r))
            segs.extend(segs_of(rope_repeat(b'\0', w - m_len(r))))
            continue
        lo, hi = (-(1 << (8 * w - 1)), (1 << (8 * w - 1)) - 1) if signed else (0, (1 << (8 * w)) - 1)
        if not b_and(v >= lo, v <= hi):
            raise struct.error("'%s' format requires %d <= number <= %d" % (c, lo, hi))
        if signed:
            v = v & ((1 << (8 * w)) - 1)
        else:
            from .ropes import refine
            v = refine(v, lo, hi)
        segs.extend(segs_of(int_to_cells(v, w, 'big' if order == '>' else 'little')))
    return mk(segs, 'bytes')


class SxStruct:
    def __init__(self, fmt):
        self.format = fmt
        self.size = struct.calcsize(fmt)

    def pack(self, *a):
        return m_pack(self.format, *a)

    def unpack(self, b):
        return m_unpack(self.format, b)

    def unpack_from(self, b, offset=0):
        return m_unpack_from(self.format, b, offset)

    def iter_unpack(self, b):
        return m_iter_unpack(self.format, b)


def m_iter_unpack(fmt, buf):
    size = struct.calcsize(fmt)
    n = m_len(buf)
    if not (n % size == 0):
        raise struct.error('iterative unpacking requires a buffer of a multiple of %d bytes' % size)
    p = 0
    while p < n:
        E.tick()
        yield m_unpack_from(fmt, buf, p)
        p += size


class _ById:
    def __init__(self):
        self.d = {}

    def __setitem__(self, k, v):
        self.d[id(k)] = (k, v)

    def get(self, k):
        return self.d.get(id(k), (None, None))[1]


class SxArray:
    """array.array of unsigned integers"""
    def __init__(self, code, init=()):
        if code not in 'BHILQ':
            raise Unsupported('array code ' + code)
        self.typecode = code
        self.itemsize = _array.array(code).itemsize
        self._v = []
        self._cells = _ById()
        if segs_of(init) is not None and not isinstance(init, (list, tuple)):
            self.frombytes(init)
        else:
            self._v.extend(init)

    def frombytes(self, b):
        n = m_len(b)
        if is_sym(n):
            n = E.concretize(n, 64, 'array size')
        if n % self.itemsize:
            raise ValueError('bytes length not a multiple of item size')
        for p in range(0, n, self.itemsize):
            v = m_unpack_from('<' + {1: 'B', 2: 'H', 4: 'I', 8: 'Q'}[self.itemsize], b, p)[0]
            if is_sym(v):       # remember what it was made of, for byteswap
                self._cells[v] = [get(b, p + j) for j in range(self.itemsize)]
            self._v.append(v)

    fromstring = frombytes

    def tobytes(self):
        out = []
        for v in self._v:
            out.extend(segs_of(int_to_cells(v, self.itemsize, 'little')) if is_sym(v) else
                       [Lit(v.to_bytes(self.itemsize, 'little'))])
        return mk(out)

    def byteswap(self):
        w = self.itemsize
        nv = []
        for v in self._v:
            if is_sym(v):
                cells = self._cells.get(v) or [(v >> (8 * j)) & 0xff for j in range(w)]      # little endian cells
                nv.append(cells_to_int(cells, 'big'))
            else:
                nv.append(int.from_bytes(v.to_bytes(w, 'little'), 'big'))
        self._v = nv

    def append(self, v):
        if not b_and(v >= 0, v < (1 << (8 * self.itemsize))):
            raise OverflowError('array item out of range')
        self._v.append(v)

    def extend(self, o):
        for v in o:
            self.append(v)

    def fromlist(self, l):
        self.extend(l)

    def tolist(self):
        return list(self._v)

    def __len__(self):
        return len(self._v)

    def __getitem__(self, i):
        r = get(self._v, i)
        if isinstance(i, slice):
            a = SxArray(self.typecode)
            a._v = r
            return a
        return r

    def __setitem__(self, i, v):
        set_(self._v, i, v)

    def __iter__(self):
        return iter(self._v)

    def __eq__(self, o):
        return isinstance(o, SxArray) and self._v == o._v

    def index(self, x):
        return self._v.index(x)

    def count(self, x):
        return self._v.count(x)

    __hash__ = None


# ---------------------------------------------------------------- binascii, hashes
def m_b2a_hex(x, *a):
    if symbolic(x):
        if a:
            raise Unsupported('b2a_hex with separator')
        return to_hex(x if isinstance(x, SymBytes) else mk(segs_of(x)), 'bytes')
    return binascii.b2a_hex(x, *a)


def m_a2b_hex(x):
    if symbolic(x):
        return from_hex(x, binascii.Error)
    return binascii.a2b_hex(x)


def m_fromhex(x):
    if symbolic(x):
        return from_hex(x, ValueError)
    return bytes.fromhex(x)


class Tokens:
    """collision-free stand-in for a checksum: equal byte strings get equal values,
    different ones different values.  Fully concrete inputs get the real value."""
    def __init__(self, real, width, tag):
        self.real, self.width, self.tag = real, width, tag
        self.reset()

    def reset(self):
        self.by_key = {}
        self.by_tok = {}
        self.ropes = []

    def token(self, rope):
        """rope: bytes | SymBytes -> concrete bytes of the checksum"""
        if not isinstance(rope, SymBytes):
            d = self.real(rope)
            if d not in self.by_tok:
                self.by_tok[d] = rope
                # a symbolic string registered earlier may equal this one
                for r, t in self.ropes:
                    if isinstance(r, SymBytes) and self._same(r, rope):
                        return t
                self.ropes.append((rope, d))
            else:
                for r, t in self.ropes:
                    if isinstance(r, SymBytes) and self._same(r, rope):
                        return t
            return d
        k = rope.key()
        if k in self.by_key:
            return self.by_key[k]
        for r, t in self.ropes:
            if self._same(rope, r):
                self.by_key[k] = t
                return t
        h = hashlib.sha256((self.tag + repr(k)).encode()).digest()
        t = self._mk(h)
        n = 0
        while t in self.by_tok:
            n += 1
            t = self._mk(hashlib.sha256(h + bytes([n])).digest())
        self.by_key[k] = t
        self.by_tok[t] = rope
        self.ropes.append((rope, t))
        return t

    def _mk(self, h):
        return h[:self.width]

    def _same(self, a, b):
        r = (a == b)
        return r if isinstance(r, bool) else bool(r)

    def preimage(self, tok):
        return self.by_tok.get(tok)


SHA1 = Tokens(lambda b: hashlib.sha1(b).digest(), 20, 'sha1')
CRC32 = Tokens(lambda b: binascii.crc32(b).to_bytes(4, 'big'), 4, 'crc')


class SxSha1:
    digest_size = 20
    block_size = 64
    name = 'sha1'

    def __init__(self, data=b''):
        self._segs = []
        if data is not None:
            self.update(data)

    def update(self, data):
        E.guard()
        s = segs_of(data)
        if s is None or isinstance(data, str) or getattr(data, 'kind', '') == 'str':
            raise TypeError('Strings must be encoded before hashing')
        self._segs.extend(s)

    def digest(self):
        E.guard()
        return SHA1.token(mk(self._segs))

    def hexdigest(self):
        return self.digest().hex()

    def copy(self):
        c = SxSha1()
        c._segs = list(self._segs)
        return c


def m_sha1(data=b'', **k):
    return SxSha1(data)


def m_hashlib_new(name, data=b'', **k):
    if name != 'sha1':
        raise Unsupported('hash ' + name)
    return SxSha1(data)


def m_crc32(data, value=0):
    E.guard()
    s = segs_of(data)
    if s is None:
        raise TypeError('a bytes-like object is required')
    if is_sym(value):
        raise Unsupported('crc32 continuing from a symbolic value')
    value &= 0xffffffff
    if value == 0:
        prev = b''
    else:
        prev = CRC32.preimage(value.to_bytes(4, 'big'))
        if prev is None:
            if not symbolic(data):
                return binascii.crc32(mk(s), value)
            raise Unsupported('crc32 continuing from an unknown value')
    r = mk(tuple(segs_of(prev)) + tuple(s))
    return int.from_bytes(CRC32.token(r), 'big')


# ---------------------------------------------------------------- dispatcher
REG = {}            # id(function) -> model
KEEP = []           # keep registered originals alive
METH = {}           # (type name of self / class, method) -> model


def reg(orig, model):
    REG[id(orig)] = model
    KEEP.append(orig)


def _from_bytes(b, byteorder='big', signed=False):
    if not symbolic(b):
        return int.from_bytes(b, byteorder, signed=signed)
    if signed:
        raise Unsupported('signed from_bytes')
    cells = b.cells() if isinstance(b, SymBytes) else list(b)
    return cells_to_int(cells, byteorder)


SAFE_SELF = (list, dict, tuple, set, frozenset)
SAFE = {id(x) for x in (iter, next, zip, enumerate, reversed, getattr, setattr, hasattr, delattr, id, any, all,
                        print, issubclass, slice, itertools.chain, itertools.repeat, itertools.takewhile,
                        itertools.dropwhile, itertools.count, itertools.accumulate, functools.partial, property,
                        staticmethod, classmethod, object.__setattr__, object.__getattribute__, itertools.tee,
                        operator.itemgetter, operator.attrgetter, operator.lt, operator.le, operator.eq, operator.ne,
                        operator.gt, operator.ge, operator.add, operator.sub, operator.mul, operator.or_,
                        operator.and_, operator.xor, frozenset, set, contextlib.suppress, itertools.starmap)}
SAFE_WRAP = (type(object.__init__), type(object().__init__))


def _str_method(self, name, a, k):
    kind = 'str' if isinstance(self, str) else 'bytes'
    if name == 'format':
        return _str_format(self, a, k)
    r = SymBytes(segs_of(self), kind)
    f = getattr(r, name, None)
    if f is None:
        return call_pinned(getattr(self if isinstance(self, (str, bytes)) else pin(r, name), name), a, k)
    return f(*a, **k)


def _str_format(self, a, k):
    import string
    parts = []
    auto = 0
    for lit, field, spec, conv in string.Formatter().parse(self):
        parts.append(lit)
        if field is None:
            continue
        if field == '':
            v = a[auto]
            auto += 1
        elif field.isdigit():
            v = a[int(field)]
        elif field in k:
            v = k[field]
        else:
            raise Unsupported('format field')
        parts.append((v, {None: -1, 'r': 114, 's': 115, 'a': 97}[conv], spec))
    return fstr(parts)


def call_pinned(f, a, k):
    what = 'call of %s with symbolic arguments' % getattr(f, '__qualname__', f)
    return f(*[pin(x, what) for x in a], **{n: pin(x, what) for n, x in k.items()})


def call(f, *a, **k):
    E.guard()
    h = REG.get(id(f))
    if h is not None:
        return h(*a, **k)
    t = type(f)
    if t is types.FunctionType:
        return f(*a, **k)
    if t is types.MethodType:
        h = REG.get(id(f.__func__))
        if h is not None:
            return h(f.__self__, *a, **k)
        return f(*a, **k)
    if t is functools.partial:
        kk = dict(f.keywords)
        kk.update(k)
        return call(f.func, *(f.args + a), **kk)
    if t is types.BuiltinFunctionType or t is types.MethodWrapperType or t is types.MethodDescriptorType:
        s = getattr(f, '__self__', None)
        if isinstance(s, (str, bytes)):
            if f.__name__ == 'join':
                a = (list(a[0]),)
                if any(symbolic(x) or isinstance(x, SxByteArray) for x in a[0]):
                    return _str_method(s, 'join', a, k)
                return f(*a)
            if symbolic(a) or (k and symbolic(list(k.values()))):
                if f.__name__ in ('find', 'index', 'startswith', 'endswith', 'split', 'partition', 'format', 'ljust',
                                  '__contains__', '__add__', '__eq__', 'replace', 'rjust', 'zfill', 'count'):
                    return _str_method(s, f.__name__, a, k)
                return call_pinned(f, a, k)
            return f(*a, **k)
        if isinstance(s, type):
            m = METH.get((s.__name__, f.__name__))
            if m is not None:
                return m(*a, **k)
        if s is not None and isinstance(s, list) and f.__name__ == 'sort' and 'key' in k and k['key'] is not None:
            key = k.pop('key')
            return f(key=lambda x: call(key, x), **k)
        if s is not None and isinstance(s, list) and f.__name__ == 'extend' and isinstance(a[0], (SymBytes, SxRange)):
            return f(iter(a[0]))
        if isinstance(s, SAFE_SELF) or isinstance(s, types.GeneratorType):
            return f(*a, **k)
        if id(f) in SAFE:
            return f(*a, **k)
        if symbolic(a) or (k and symbolic(list(k.values()))):
            if s is not None and not isinstance(s, (types.ModuleType, type)):
                return f(*a, **k)
            if f.__name__ in ('__new__', '__init__', '__setattr__', '__getattribute__'):
                return f(*a, **k)
            return call_pinned(f, a, k)
        return f(*a, **k)
    if isinstance(f, type):
        if f.__module__ == 'builtins' and id(f) not in SAFE and symbolic(a) and not issubclass(f, BaseException) \
                and f not in (object, super):
            if f in (float, complex):
                return call_pinned(f, a, k)
        return f(*a, **k)
    return f(*a, **k)


def install_builtins():
    for o, m in ((len, m_len), (ord, m_ord), (chr, m_chr), (int, m_int), (bool, m_bool), (str, m_str), (bytes, m_bytes),
                 (bytearray, m_bytearray), (memoryview, m_memoryview), (range, m_range), (max, m_max), (min, m_min),
                 (sum, m_sum), (list, m_list), (tuple, m_tuple), (map, m_map), (filter, m_filter),
                 (functools.reduce, m_reduce), (sorted, m_sorted), (isinstance, m_isinstance), (type, m_type),
                 (divmod, m_divmod), (pow, m_pow), (repr, m_repr), (dict, SxDict), (itertools.islice, m_islice),
                 (hex, m_hex),
                 (io.BytesIO, SxBytesIO), (struct.unpack_from, m_unpack_from), (struct.unpack, m_unpack),
                 (struct.pack, m_pack), (struct.Struct, SxStruct), (struct.iter_unpack, m_iter_unpack),
                 (_array.array, SxArray), (binascii.b2a_hex, m_b2a_hex), (binascii.hexlify, m_b2a_hex),
                 (binascii.a2b_hex, m_a2b_hex), (binascii.unhexlify, m_a2b_hex),
                 (hashlib.sha1, m_sha1), (hashlib.new, m_hashlib_new),
                 (zlib.crc32, m_crc32), (binascii.crc32, m_crc32)):
        reg(o, m)
    METH[('int', 'from_bytes')] = _from_bytes
    METH[('bytes', 'fromhex')] = m_fromhex
    METH[('dict', 'fromkeys')] = lambda it, v=None: SxDict([(x, v) for x in it])


install_builtins()

RUNTIME = {
    '__sx_call__': call, '__sx_get__': get, '__sx_set__': set_, '__sx_aug__': aug, '__sx_in__': in_,
    '__sx_is__': is_, '__sx_mod__': mod, '__sx_fstr__': fstr, '__sx_dict__': SxDict, '__sx_tick__': tick,
}
