"""C05: applying a well-formed delta reproduces the target exactly."""
from harness import lib

ASSUMPTIONS = ['the delta is well formed: every copy lies within the base, the announced sizes are the true ones',
               'base objects of up to 2^32 bytes of any content; inserted bytes of any content']


class Out:
    def __init__(self):
        self.parts = []

    def write(self, d):
        self.parts.append(bytes(d))
        return len(d)


def copy_args(H, i, mask):
    """argument bytes selected by mask (bits 0-3 offset, 4-6 size): (bytes, offset, size)"""
    b, ofs, size = [], 0, 0
    for k in range(7):
        if mask >> k & 1:
            v = H.int('c%d.%d' % (i, k), 0, 255)
            b.append(v)
            if k < 4:
                ofs = ofs + v * (1 << (8 * k))
            else:
                size = size + v * (1 << (8 * (k - 4)))
    if size == 0:
        H.reach('zero size')
        size = 65536
    return bytes([128 + mask] + b), ofs, size


def commands(H, kinds, base, bsize, masks):
    """(command stream, target)"""
    d, t = b'', b''
    for i, k in enumerate(kinds):
        if k == 'i':
            n = H.int('n%d' % i, 1, 127)
            a = H.src('a%d' % i, n)
            d = d + bytes([n]) + a
            t = t + a
            continue
        if k == 'c':
            mask = H.pick('m%d' % i, masks)
        else:
            mask = {'f': 0x7f, 's': 0x11, 'z': 0x01}[k]
        cmd, ofs, size = copy_args(H, i, mask)
        H.assume(ofs + size <= bsize)
        d = d + cmd
        t = t + base[ofs:ofs + size]
    return d, t


def apply(H, kinds, masks):
    """the command interpreter on its own"""
    from gitdb.fun import apply_delta_data
    bsize = H.int('bsize', 0, 1 << 33)
    base = H.src('base', bsize)
    d, t = commands(H, kinds, base, bsize, masks)
    out = Out()
    apply_delta_data(base, bsize, d, len(d), out.write)
    H.eq(b''.join(out.parts), t, 'the target is the concatenation of the named ranges and literals')
    H.reach('applied')


def num(H, x, nbytes):
    """delta size header of a symbolic size, in nbytes bytes"""
    b = []
    for k in range(nbytes):
        b.append(x % 128 + (128 if k < nbytes - 1 else 0))
        x = x // 128
    return bytes(b)


class Stream:
    """what the reader needs of a pack stream"""
    def __init__(self, data, type=b'blob', type_id=3):
        self.data, self.size, self.pos, self.type, self.type_id = data, len(data), 0, type, type_id

    def read(self, n=-1):
        e = self.size
        if n >= 0 and self.pos + n < e:
            e = self.pos + n
        r = self.data[self.pos:e]
        self.pos = e
        return r


def reader(H, kinds, maxbase, hb, masks, reads):
    """through DeltaApplyReader, with the size headers in hb bytes each"""
    from gitdb.stream import DeltaApplyReader
    bsize = H.int('bsize', 0, maxbase)
    base = H.src('base', bsize)
    d, t = commands(H, kinds, base, bsize, masks)
    n = len(t)
    H.assume(bsize < (1 << (7 * hb)))
    H.assume(n < (1 << (7 * hb)))
    delta = num(H, bsize, hb) + num(H, n, hb) + d
    r = DeltaApplyReader.new([Stream(delta, b'OFS_DELTA', 6), Stream(base)])
    H.check(r.size == n, 'the result has the announced size')
    H.eq(r.type, b'blob', 'the result has the type of the base')
    if reads == 0:
        H.eq(r.read(), t, 'the result is the target')
    else:
        pos = 0
        rw = H.int('rewind', 0, reads)
        for i in range(reads):
            if rw == i:
                r.seek(0)
                pos = 0
            k = H.int('r%d' % i, 1, 1 << 30)
            w = k if k < n - pos else n - pos
            got = r.read(k)
            H.check(len(got) == w, 'a sized read returns what was asked for, or what is left')
            H.eq(got, t[pos:pos + w], 'a sized read returns the next bytes')
            pos = pos + w
    H.reach('read')


def cases(tier):
    big = tier != 'quick'
    out = []

    def add(nm, fn, bounds, **p):
        out.append(dict(name=nm, fn=fn, params=p, bounds=bounds, max_steps=8000))
    allm = list(range(128))
    some = allm if big else [0x10, 0x7f, 0x01, 0x5b, 0x2d, 0x48]
    for ks in ('c', 'ci', 'ic', 'fc', 'cf'):
        add('apply-' + ks, apply, 'commands %s (c: every mask, f: full copy, i: insert), all arguments' % ks, kinds=ks, masks=allm)
    for ks in ('', 'i', 'ii', 'fff', 'ifif', 'zsz', 'ccc', 'iiii') + (('cici', 'fffff', 'iziz') if big else ()):
        add('apply-' + (ks or 'none'), apply, 'commands %s, all arguments' % ks, kinds=ks, masks=some if len(ks) < 3 or big and ks != 'ccc' else [0x10, 0x5b, 0x7f])
    for ks, hb in (('', 1), ('i', 1), ('i', 2), ('s', 2), ('si', 3), ('is', 3), ('f', 5), ('sz', 4), ('z', 4), ('izi', 4), ('iiiiii', 2), ('iiiiif', 3)) + \
            ((('sisi', 3), ('c', 5), ('fif', 5)) if big else ()):
        add('reader-%s-%d' % (ks, hb), reader, 'commands %s, headers of %d bytes, base up to 3 MiB (three copy chunks)' % (ks, hb), kinds=ks, hb=hb,
            maxbase=3 << 20, masks=some, reads=0)
    for ks, hb in (('i', 1), ('si', 3)) + ((('sis', 3),) if big else ()):
        add('reads-%s' % ks, reader, 'commands %s, 2 sized reads and a rewind anywhere' % ks, kinds=ks, hb=hb, maxbase=1 << 20, masks=some, reads=2)
    return out
