"""C33: object headers and ids survive encoding and decoding."""
import zlib

ASSUMPTIONS = ['types are words of up to 6 lower case letters; sizes are below 10^15',
               'header data is held in a stored zlib block unless the case says otherwise']


def header(H, digits, real):
    """the header of a loose object, written and parsed"""
    from gitdb.fun import loose_object_header, loose_object_header_info
    from gitdb.stream import DecompressMemMapReader
    t = H.pick('type', [b'blob', b'tree', b'commit', b'tag'])
    n = H.int('size', 10 ** (digits - 1) if digits > 1 else 0, 10 ** digits - 1)
    h = loose_object_header(t, n)
    H.eq(h, t + b' ' + (b'%d' % n) + b'\0', 'the header git prescribes')
    after = H.src('a', H.int('more', 0, 20000))
    m = H.zstream('z', [('stored', h + after)] if not real else [('stored', h[:3]), ('flush',), ('stored', h[3:] + after)])
    typ, size = loose_object_header_info(m)
    H.eq(typ, t, 'type from the header')
    H.check(size == n, 'size from the header')
    typ, size, st = DecompressMemMapReader.new(m)
    H.eq(typ, t, 'type from the stream')
    H.check(size == n, 'size from the stream')
    H.reach('parsed')


def magic(H, n):
    """is_loose_object is decided by the first two bytes, as in git: a zlib header of the deflate method with a
    32 KiB window that is a multiple of 31"""
    from gitdb.fun import is_loose_object
    b = H.cells('b', 2)
    m = b + H.src('rest', H.int('n', 0, n))
    if H.bit('view'):
        m = memoryview(m)
    got = is_loose_object(m)
    want = H.all(b[0] == 0x78, (b[0] * 256 + b[1]) % 31 == 0)
    H.check(H.any(H.all(got, want), H.all(H.no(got), H.no(want))), 'loose objects are recognised by their first bytes')
    H.reach('magic')


def sizes(H, n, ofs):
    """sizes in delta headers: seven bits per byte, least significant first"""
    from gitdb.fun import msb_size
    b = H.cells('b', n)
    pre = H.src('pre', ofs)
    data = pre + b + H.src('post', H.int('np', 0, 100))
    want, used = 0, None
    for i in range(n):
        want = want + (b[i] % 128) * (1 << 7 * i)
        if b[i] < 128:
            used = i + 1
            break
    H.assume(used is not None)
    end, size = msb_size(data, ofs)
    H.check(size == want, 'the size')
    H.check(end == ofs + used, 'where the data goes on')
    H.reach('size %d' % used)


def hexes(H):
    """ids in binary and hexadecimal form"""
    from gitdb.util import to_hex_sha, to_bin_sha, bin_to_hex, hex_to_bin
    from gitdb import IStream, OInfo
    b = H.cells('b', 20)
    x = to_hex_sha(b)
    H.check(len(x) == 40, 'forty digits')
    H.eq(x, b.hex().encode(), 'the hexadecimal form')
    H.eq(to_hex_sha(x), x, 'hexadecimal stays as it is')
    H.eq(to_bin_sha(x), b, 'back to binary')
    H.eq(to_bin_sha(b), b, 'binary stays as it is')
    H.eq(OInfo(b, b'blob', 1).hexsha, x, 'id of an info')
    i = IStream(b'blob', 1, None)
    i.binsha = b
    H.eq(i.hexsha, x, 'id of a stream')
    H.reach('hex')


def cases(tier):
    big = tier != 'quick'
    out = []

    def add(nm, fn, bounds, mode='int', **p):
        out.append(dict(name=nm, fn=fn, params=p, bounds=bounds, max_steps=10000, mode=mode))
    for d in range(1, 16):
        add('header-%d' % d, header, 'all types, all sizes of %d digits' % d, digits=d, real=d % 3 == 0)
    add('magic', magic, 'all first two bytes', n=1000)
    for n in range(1, 10 if big else 8):
        add('size-%d' % n, sizes, 'all encodings of up to %d bytes, at any of two offsets' % n, mode='bv', n=n, ofs=n % 3)
    add('hex', hexes, 'all ids', mode='bv')
    return out
