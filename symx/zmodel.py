"""zlib models.

A compressed stream is an opaque byte source described by fragments; the inflater model
follows zlib's consumption rules for byte-aligned fragments:
  meta  - compressed bytes without output, consumed as soon as they are available
  copy  - stored bytes, one output byte each, consumed only while there is output room
  table - a concrete deflate fragment whose consumption/production tables were measured
          on the real zlib"""
import functools
import zlib

from .core import E, Unsupported, SxBug, b_and
from .ints import SymInt, var, is_sym
from .ropes import SymBytes, ZSource, Src, Lit, mk, segs_of, total, split
from . import models
from .models import m_len, m_slice, reg
from .inputs import measure


class ZStream:
    def __init__(self, name, frags=None, decoded=None):
        self.name = name
        self.src = ZSource('z.' + name)
        self.src.zs = self
        self.frags = frags              # list of (kind, cin, cout, data)
        self.decoded = decoded          # rope
        self.total = None
        self.finished = False
        if frags is not None:
            t = 0
            for f in frags:
                t = t + f[1]
            self.total = t
            self.finished = True

    def rope(self):
        return mk([Src(self.src, 0, self.total)])


def build(name, parts):
    """symbolic stream; for the parts see inputs.build_real"""
    frags = [('meta', 2, 0, None)]
    decoded = []
    end = 5                                     # final empty stored block
    for p in parts:
        if p[0] in ('stored', 'last'):
            n = m_len(p[1])
            E.assume(n <= 65535)
            frags.append(('meta', 5, 0, None))
            frags.append(('copy', n, n, None))
            decoded.extend(segs_of(p[1]))
        elif p[0] in ('raw', 'rawlast'):
            raw, ofi, cfo = measure(p[1], p[0] == 'rawlast')
            frags.append(('table', len(raw), len(p[1]), (ofi, cfo)))
            decoded.append(Lit(p[1]))
        elif p[0] == 'flush':
            frags.append(('meta', 5, 0, None))
        elif p[0] != 'short':
            raise SxBug(p)
        if p[0] in ('last', 'rawlast', 'short'):
            end = 2 if p[0] == 'short' else 0
    if end:
        frags.append(('meta', end, 0, None))
    frags.append(('meta', 4, 0, None))          # adler
    return ZStream(name, frags, mk(decoded))


class SxDecompress:
    """zlib.decompressobj()"""
    def __init__(self, wbits=15, **k):
        E.guard()
        self._real = None
        self._real_args = (wbits,)
        self._zs = None
        self._f = 0         # fragment index
        self._ci = 0        # compressed bytes consumed inside the fragment
        self._oi = 0        # output produced inside the fragment
        self._cpos = 0
        self._opos = 0
        self.eof = False
        self.unused_data = b''
        self.unconsumed_tail = b''

    def copy(self):
        raise Unsupported('decompressobj.copy')

    def flush(self, n=None):
        d = self.unconsumed_tail
        r = self.decompress(d, 0)
        return r

    def decompress(self, data, max_length=0):
        E.guard()
        s = segs_of(data)
        if s is None:
            raise TypeError('a bytes-like object is required')
        rope = mk(s)
        if max_length < 0:
            raise ValueError('max_length must be non-negative')
        if self._real is None and self._zs is None and not isinstance(rope, SymBytes) and m_len(rope) > 0:
            self._real = zlib.decompressobj(*self._real_args)
        if self._real is not None:
            if isinstance(rope, SymBytes):
                raise Unsupported('symbolic bytes after concrete compressed bytes')
            if is_sym(max_length):
                max_length = E.concretize(max_length, 300, 'max_length')
            r = self._real.decompress(rope, max_length)
            self.eof = self._real.eof
            self.unused_data = self._real.unused_data
            self.unconsumed_tail = self._real.unconsumed_tail
            return r
        n = m_len(rope)
        if self.eof:
            self.unused_data = self.unused_data + rope if n > 0 else self.unused_data
            if m_len(self.unconsumed_tail) > 0:
                self.unconsumed_tail = rope
            return b''
        empty = not (n > 0)
        if empty and self._zs is None:
            return b''
        if self._zs is None:
            h = rope.segs[0]
            zs = getattr(getattr(h, 's', None), 'zs', None)
            if zs is None:
                if isinstance(h, Src) or not isinstance(h, Lit):
                    raise Unsupported('inflating symbolic bytes that are not a modelled stream')
                raise zlib.error('Error -3 while decompressing data: incorrect header check')
            if not zs.finished:
                raise Unsupported('inflating an unfinished stream')
            self._zs = zs
        zs = self._zs
        if zs.frags is None:
            raise Unsupported('inflating an opaque stream')
        if empty:
            avail = 0       # there may be output of input taken before
        else:
            h = rope.segs[0]
            if getattr(h, 's', None) is not zs.src or not (h.a == self._cpos):
                raise zlib.error('Error -3 while decompressing data: invalid stored block lengths')
            left = zs.total - self._cpos
            avail = h.n
            if avail > left:
                avail = left
        unlimited = True if max_length == 0 else False      # decided by the solver if symbolic
        room = None if unlimited else max_length
        consumed = 0
        out = 0
        while self._f < len(zs.frags):
            E.tick()
            kind, cin, cout, t = zs.frags[self._f]
            if kind == 'meta':
                need = cin - self._ci
                if avail - consumed < need:
                    self._ci = self._ci + (avail - consumed)
                    consumed = avail
                    break
                consumed = consumed + need
            elif kind == 'copy':
                rem = cin - self._ci
                k = rem
                full = True
                if room is not None and room - out < k:
                    k = room - out
                    full = False
                if avail - consumed < k:
                    k = avail - consumed
                    full = False
                consumed = consumed + k
                out = out + k
                if not full:
                    self._ci = self._ci + k
                    break
            else:
                ofi, cfo = t
                a = avail - consumed
                if a > cin - self._ci:
                    a = cin - self._ci
                if is_sym(a):
                    a = E.concretize(a, 300, 'input window inside a deflate run')
                can = ofi[self._ci + a] - self._oi
                if room is not None and room - out < can:
                    r = room - out
                    if is_sym(r):
                        r = E.concretize(r, 600, 'output room inside a deflate run')
                    out = out + r
                    self._oi += r
                    c2 = cfo[self._oi]
                    c2 = min(max(c2, self._ci), self._ci + a)
                    consumed = consumed + (c2 - self._ci)
                    self._ci = c2
                    break
                out = out + can
                self._oi += can
                consumed = consumed + a
                self._ci += a
                if self._ci < cin:
                    break
            self._f += 1
            self._ci = 0
            self._oi = 0
        self._cpos = self._cpos + consumed
        res = m_slice(zs.decoded, self._opos, self._opos + out)
        self._opos = self._opos + out
        rest = m_slice(rope, consumed, n)
        if E.alloc is not None:
            E.note(n - consumed)
        if self._f >= len(zs.frags):
            self.eof = True
            self.unused_data = rest
            # the interpreter replaces a tail left from before by whatever follows the stream
            if m_len(self.unconsumed_tail) > 0:
                self.unconsumed_tail = rest
        else:
            self.unconsumed_tail = rest
        return res


HELD = 1 << 17          # what a compressor may hold back


class Config:
    shared = {}
    compressor = 'stored'       # or 'shared', 'blocks', 'opaque'


def rkey(r):
    return r.key() if isinstance(r, SymBytes) else r


class SxCompress:
    """zlib.compressobj(): opaque bytes whose decoded contents are what was fed"""
    def __init__(self, *a, **k):
        E.guard()
        E.zcount = getattr(E, 'zcount', 0) + 1
        self._zs = ZStream('c%d' % E.zcount)
        self._in = []
        self._pos = 0
        self._mode = Config.compressor
        self._done = False

    def compress(self, data):
        E.guard()
        s = segs_of(data)
        if s is None:
            raise TypeError('a bytes-like object is required')
        if self._done:
            raise zlib.error('Error -2 while compressing data: inconsistent stream state')
        if self._mode == 'shared' and self._pos == 0 and s:
            # equal data is compressed to equal bytes
            self._zs = Config.shared.setdefault(rkey(mk(s)), self._zs)
        self._in.extend(s)
        if self._mode != 'opaque':
            # everything is held back until flush, except the two header bytes
            if self._pos == 0:
                self._pos = 2
                return mk([Src(self._zs.src, 0, 2)])
            return b''
        n = var(E.fresh('zlen'), 0, 1 << 40 if E.mode != 'bv' else 1 << 20)
        E.assume(n <= total(s) + HELD)
        r = mk([Src(self._zs.src, self._pos, n)])
        self._pos = self._pos + n
        return r

    def flush(self, mode=zlib.Z_FINISH):
        E.guard()
        if mode != zlib.Z_FINISH:
            raise Unsupported('compressobj.flush(mode)')
        if self._done:
            raise zlib.error('Error -2 while flushing: inconsistent stream state')
        self._done = True
        zs = self._zs
        if zs.finished:
            if rkey(zs.decoded) != rkey(mk(self._in)):
                raise Unsupported('shared stream with different contents')
            r = mk([Src(zs.src, self._pos, zs.total - self._pos)])
            self._pos = zs.total
            return r
        zs.decoded = mk(self._in)
        n = m_len(zs.decoded)
        if self._mode != 'opaque':
            # 'blocks': the overhead of data that does not compress, a header for every 16383 bytes
            h = 5 if self._mode != 'blocks' else (n // 16383 + 1) * 5
            zs.frags = [('meta', 2, 0, None), ('meta', h, 0, None), ('copy', n, n, None), ('meta', 4, 0, None)]
            zs.total = n + 6 + h
        else:
            k = var(E.fresh('zlen'), 6, 1 << 41 if E.mode != 'bv' else 1 << 21)
            E.assume(k <= n + 64)
            E.assume(k <= HELD)
            zs.total = self._pos + k
        zs.finished = True
        r = mk([Src(zs.src, self._pos, zs.total - self._pos)])
        self._pos = zs.total
        return r


def decode(rope):
    """specification-level decoding: the contents if rope is exactly one complete stream,
    else None"""
    if not isinstance(rope, SymBytes):
        try:
            d = zlib.decompressobj()
            out = d.decompress(rope) + d.flush()
            return out if d.eof and not d.unused_data else None
        except zlib.error:
            return None
    if len(rope.segs) != 1 or not isinstance(rope.segs[0], Src):
        return None
    s = rope.segs[0]
    zs = getattr(s.s, 'zs', None)
    if zs is None or not zs.finished:
        return None
    if not E.must(b_and(s.a == 0, s.n == zs.total)):
        return None
    return zs.decoded


def m_decompress(data, wbits=15, bufsize=16384):
    d = SxDecompress(wbits)
    r = d.decompress(data)
    if not d.eof:
        raise zlib.error('Error -5 while decompressing data: incomplete or truncated stream')
    return r


def m_compress(data, level=-1, wbits=15):
    c = SxCompress(level)
    a = c.compress(data)
    return mk(tuple(segs_of(a)) + tuple(segs_of(c.flush())))


reg(zlib.decompressobj, SxDecompress)
reg(zlib.compressobj, SxCompress)
reg(zlib.decompress, m_decompress)
reg(zlib.compress, m_compress)
