"""C10: written packs and their indexes describe exactly the given objects."""
import hashlib
import zlib
from harness import lib
from harness.c01 import Feed
from harness.c03 import header, LIM

ASSUMPTIONS = ['the copy chunk is lowered (symbolic) so that sizes on both sides of its multiples are within the bound',
               'opaque cases: every compressed length for every chunk; stored cases: the written files are read back through the code']

TYPES = [b'commit', b'tree', b'blob', b'tag']


def sha(i):
    return bytes([(97 * i + 200) % 251] * 3 + [i] * 17)


class Sink:
    def __init__(self, style):
        self.parts, self.style = [], style

    def write(self, d):
        self.parts.append(bytes(d))
        return len(d) if self.style else None


def hdr_len(size):
    nb = 1
    while size >= LIM[nb - 1]:
        nb += 1
    return nb


def objects(H, k, chunk, span, lo=0, types=False, top=1 << 20):
    from gitdb import OStream
    from io import BytesIO
    objs = []
    for i in range(k):
        n = H.int('n%d' % i, 0, top)
        H.assume(n <= span * chunk + 1)
        if lo:
            H.assume(n >= lo)
        data = H.src('a%d' % i, n)
        t = TYPES[i % 4] if not types else H.pick('type', TYPES)
        objs.append((sha(i), t, n, data, OStream(sha(i), t, n, BytesIO(data) if i % 2 else Feed(data, n))))
    return objs


def written(H, k, chunk, span, given, index, lo=0, top=1 << 20):
    """format of what is written"""
    from gitdb.pack import PackEntity
    chunk = H.int('chunk', *chunk)
    lib.set_chunk(chunk)
    objs = objects(H, k, chunk, span, lo, k == 1 and given == 'list', top)
    ps, xs = Sink(True), Sink(False)
    it = [o[4] for o in objs]
    if given == 'iter':
        ret = PackEntity.write_pack(iter(it), ps.write, xs.write if index else None)
    elif given == 'count':
        ret = PackEntity.write_pack(iter(it), ps.write, xs.write if index else None, object_count=k)
    else:
        ret = PackEntity.write_pack(it, ps.write, xs.write if index else None)
    pack = b''.join(ps.parts)
    n = len(pack)
    H.eq(pack[:12], b'PACK' + lib.u32(2) + lib.u32(k), 'pack header with the object count')
    H.eq(pack[n - 20:], hashlib.sha1(pack[:n - 20]).digest(), 'the trailer is the checksum of the pack')
    H.eq(ret[0], pack[n - 20:], 'the pack checksum is returned')
    if not index:
        H.check(ret[1] is None, 'no index, no index checksum')
        # without an index the entries follow each other in order; walk them
        return
    idx = b''.join(xs.parts)
    m = len(idx)
    H.check(m == 1032 + 28 * k + 40, 'size of the index')
    H.eq(idx[:8], b'\xfftOc' + lib.u32(2), 'index header')
    order = sorted(range(k), key=lambda i: objs[i][0])
    H.eq(idx[8:1032], lib.fanout(H, [objs[i][0] for i in order]), 'fan-out')
    H.eq(idx[1032:1032 + 20 * k], b''.join([objs[i][0] for i in order]), 'ids in order')
    H.eq(idx[m - 40:m - 20], pack[n - 20:], 'index carries the pack checksum')
    H.eq(idx[m - 20:], hashlib.sha1(idx[:m - 20]).digest(), 'the index trailer is the checksum of the index')
    H.eq(ret[1], idx[m - 20:], 'the index checksum is returned')
    offs = {}
    for p, i in enumerate(order):
        b = idx[1032 + 24 * k + 4 * p:1032 + 24 * k + 4 * p + 4]
        offs[i] = int.from_bytes(b, 'big')
    want = 12
    for i in range(k):
        s, t, size, data, _ = objs[i]
        H.learn(offs[i] == want, 'the index gives the offset of the entry')
        nxt = offs[i + 1] if i + 1 < k else n - 20
        nb = hdr_len(size)
        H.eq(pack[want:want + nb], header(TYPES.index(t) + 1, size, nb), 'entry header')
        back = H.zdecode(pack[want + nb:nxt])
        H.check(back is not None, 'the entry is its header and one zlib stream, up to the next entry')
        H.eq(back, data, 'the entry decompresses to the object')
        p = order.index(i)
        H.eq(idx[1032 + 20 * k + 4 * p:1032 + 20 * k + 4 * p + 4], lib.u32(zlib.crc32(pack[want:nxt])), 'checksum of the entry in the index')
        want = nxt
    H.reach('written')


def readback(H, k, maxn):
    """files written and read back by the code"""
    from gitdb.pack import PackEntity
    objs = objects(H, k, maxn, 1, 0 if k == 1 else 16, k == 1)
    ps, xs = Sink(True), Sink(True)
    PackEntity.write_pack([o[4] for o in objs], ps.write, xs.write)
    H.put('pack-x.pack', b''.join(ps.parts))
    H.put('pack-x.idx', b''.join(xs.parts))
    e = PackEntity(H.root + '/pack-x.idx')
    H.check(e.index().size() == k and e.pack().size() == k, 'number of entries')
    H.eq(bytes(e.index().packfile_checksum()), bytes(e.pack().checksum()), 'pack and index belong together')
    for s, t, n, data, _ in objs:
        st = e.stream(s)
        H.eq(st.type, t, 'type')
        H.check(st.size == n, 'size')
        H.eq(st.read(), data, 'contents')
        H.check(e.is_valid_stream(s, use_crc=True), 'checksum of the entry')
    H.reach('read back')


def wrong(H, k, what):
    """too few objects, or an object with more or less data than its size"""
    from gitdb.pack import PackEntity
    from gitdb import OStream
    chunk = H.int('chunk', 15, 50)
    lib.set_chunk(chunk)
    objs = objects(H, k, chunk, 2 if k == 1 else 1, lo=16 if k > 1 else 0)
    ps, xs = Sink(True), Sink(True)
    it = [o[4] for o in objs]
    count = k
    if what == 'count':
        count = H.int('count', 1, 1 << 20)
        H.assume(count > k)
    else:
        j = H.pick('bad', list(range(k)))
        s, t, n, data, _ = objs[j]
        said = H.int('said', 0, 1 << 20)
        H.assume(H.no(said == n))
        it[j] = OStream(s, t, said, Feed(data, n))
    seq = iter(it) if H.bit('iter') else it
    r, exc = H.catch(PackEntity.write_pack, seq, ps.write, xs.write if H.bit('index') else None, count)
    H.check(exc is not None, 'writing fails if the objects are not what was announced')
    H.reach('refused')


def cases(tier):
    big = tier != 'quick'
    out = []

    def add(nm, fn, bounds, comp='stored', **p):
        out.append(dict(name=nm, fn=fn, params=p, bounds=bounds, max_steps=8000, compressor=comp))
    for given in ('list', 'iter', 'count'):
        for k in (1, 2) + ((3,) if big or given == 'list' else ()) + ((4,) if big else ()) + ((0,) if given != 'count' else ()):
            add('opaque-%s-%d' % (given, k), written, '%d objects of up to %d chunks and a byte, every compressed length' % (k, 2 if k < 3 else 1),
                'opaque', k=k, chunk=(1000, 2000) if k > 2 else (1, 1 << 18) if k < 2 else (16, 1000), span=2 if k < 3 else 1, given=given, index=True,
                lo=0 if k < 2 else 16)
    add('opaque-large', written, '2 objects of 256 KiB to 64 MiB (headers of 4 and 5 bytes)', 'opaque', k=2, chunk=(1 << 25, 1 << 26), span=2,
        given='list', index=True, lo=1 << 18, top=1 << 26)
    add('opaque-noindex', written, '2 objects, no index wanted', 'opaque', k=2, chunk=(1, 100), span=2, given='list', index=False)
    add('stored-1', written, '1 object of up to 5 chunks', k=1, chunk=(1, 1 << 16), span=5, given='list', index=True)
    for k in (1, 2) + ((3,) if big else ()):
        add('readback-%d' % k, readback, '%d objects of up to 2000 bytes' % k, k=k, maxn=2000)
    for k in (1, 2):
        for w in ('count', 'size'):
            add('wrong-%s-%d' % (w, k), wrong, '%d objects, wrong %s' % (k, w), 'opaque', k=k, what=w)
    return out
