"""C06: a malformed delta command stream is an error, never data."""
from harness.c05 import Out, Stream, num

ASSUMPTIONS = ['command streams of the lengths listed per case, every byte of them symbolic; base objects of any size']


def parse(H, d, bsize):
    """specification: None if malformed, else the size of the target"""
    i, n, total = 0, len(d), 0
    while i < n:
        c = d[i]
        i += 1
        if c == 0:
            H.reach('zero command')
            return None
        if c < 128:
            if i + c > n:
                H.reach('cut insert')
                return None
            i = H.conc(i + c)
            total = total + c
            continue
        ofs = size = 0
        for k in range(7):
            if (c >> k) & 1 == 1:
                if i >= n:
                    H.reach('cut copy')
                    return None
                if k < 4:
                    ofs = ofs + d[i] * (1 << (8 * k))
                else:
                    size = size + d[i] * (1 << (8 * (k - 4)))
                i += 1
        if size == 0:
            size = 65536
        if ofs + size > bsize:
            H.reach('copy outside')
            return None
        total = total + size
    return total


def raw(H, n, prefix, suffix):
    """n arbitrary bytes between fixed commands"""
    from gitdb.fun import apply_delta_data
    bsize = H.int('bsize', 0, 1 << 33)
    base = H.src('base', bsize)
    d = prefix + H.cells('d', n) + suffix
    want = parse(H, d, bsize)
    out = Out()
    res, exc = H.catch(apply_delta_data, base, bsize, d, len(d), out.write)
    if want is None:
        H.check(exc is not None, 'a malformed command stream is an error')
    else:
        H.check(exc is None, 'a well-formed command stream is applied')
        H.check(len(b''.join(out.parts)) == want, 'a well-formed command stream gives its target')
        H.reach('well formed')


def reader(H, n, prefix, suffix):
    """the same through DeltaApplyReader, sizes announced truthfully"""
    from gitdb.stream import DeltaApplyReader
    bsize = H.int('bsize', 1, 3000)
    tsize = H.int('tsize', 1, 100000)
    base = H.src('base', bsize)
    d = prefix + H.cells('d', n) + suffix
    want = parse(H, d, bsize)
    H.assume(want is None)
    delta = num(H, bsize, 3) + num(H, tsize, 3) + d
    r = DeltaApplyReader.new([Stream(delta, b'OFS_DELTA', 6), Stream(base)])
    res, exc = H.catch(lambda: (r.size, r.read()))
    H.check(exc is not None, 'a malformed command stream is an error')


def merged(H, n, prefix, suffix):
    """the same when the commands are merged into a list of changes first"""
    from gitdb.fun import connect_deltas
    bsize = H.int('bsize', 1, 3000)
    tsize = H.int('tsize', 1, 100000)
    base = H.src('base', bsize)
    d = prefix + H.cells('d', n) + suffix
    want = parse(H, d, bsize)
    s = Stream(num(H, bsize, 3) + num(H, tsize, 3) + d, 'OFS_DELTA', 6)
    out = Out()
    res, exc = H.catch(lambda: connect_deltas([s]).apply(base, out.write))
    if want is None:
        H.check(exc is not None, 'a malformed command stream is an error')
    else:
        H.check(exc is None, 'a well-formed command stream is applied')
        H.check(len(b''.join(out.parts)) == want, 'a well-formed command stream gives its target')
        H.reach('well formed')


def cases(tier):
    big = tier != 'quick'
    out = []

    def add(nm, fn, bounds, **p):
        out.append(dict(name=nm, fn=fn, params=p, bounds=bounds, max_steps=8000))
    for n in range(1, 8 if big else 5):
        add('raw%d' % n, raw, 'every command stream of %d bytes, every base size' % n, n=n, prefix=b'', suffix=b'')
    pre = [('ins', b'\x03abc'), ('copy', b'\x91\x05\x07')]
    for nm, b in pre:
        for n in range(1, 6 if big else 4):
            add('after-%s-%d' % (nm, n), raw, '%d arbitrary bytes after %r' % (n, b), n=n, prefix=b, suffix=b'')
            add('before-%s-%d' % (nm, n), raw, '%d arbitrary bytes before %r' % (n, b), n=n, prefix=b'', suffix=b)
    for m in (0xff, 0xfe, 0xef, 0xf7, 0xbf, 0x8f, 0xf0, 0x9f):
        k = bin(m & 127).count('1')
        add('mask-%02x' % m, raw, 'a copy with mask %02x and every argument' % m, n=k, prefix=bytes([m]), suffix=b'')
        add('mask-%02x-mid' % m, raw, 'a copy with mask %02x and every argument between inserts' % m, n=k, prefix=b'\x01x' + bytes([m]), suffix=b'\x02yz')
        add('mask-%02x-cut' % m, raw, 'a cut off copy with mask %02x' % m, n=k - 1, prefix=b'\x01x' + bytes([m]), suffix=b'')
    for n in (1, 2, 3) + ((4, 5) if big else ()):
        add('merged%d' % n, merged, '%d arbitrary bytes, merged' % n, n=n, prefix=b'', suffix=b'')
        add('merged%d-after' % n, merged, '%d arbitrary bytes after an insert, merged' % n, n=n, prefix=b'\x02xy', suffix=b'')
        add('merged%d-before' % n, merged, '%d arbitrary bytes before an insert, merged' % n, n=n, prefix=b'', suffix=b'\x02xy')
    for n in (1, 2, 3) + ((4, 5) if big else ()):
        add('reader%d' % n, reader, '%d arbitrary bytes, through the reader' % n, n=n, prefix=b'', suffix=b'')
        add('reader%d-after' % n, reader, '%d arbitrary bytes after an insert, through the reader' % n, n=n, prefix=b'\x02xy', suffix=b'')
    return out
