"""C26: objects are served from anywhere in packs of any size."""
import zlib

from harness import lib
from harness.c05 import num
from harness.c07 import sha, entry, check_obj

ASSUMPTIONS = ['a large pack is a few entries with gaps of any size between them; a gap (a hole in the file) stands for other entries',
               'packs of up to 6 GiB; mappings are modelled like smmap: one mapping of the whole file, or sliding windows of the size the '
               'map manager was set up with',
               'contents are symbolic, entry data is held in stored zlib blocks']

GIB = 1 << 30


def dist_enc(H, dist, nb):
    """base distance of an offset delta, in nb bytes"""
    lo = 0
    for i in range(1, nb):
        lo += 128 ** i
    H.assume(dist >= lo)
    H.assume(dist < lo + 128 ** nb)
    d = dist - lo
    return bytes([128 * (i < nb - 1) + (d // 128 ** (nb - 1 - i)) % 128 for i in range(nb)])


def make_delta(H, base):
    """(delta, target): a copy from the base and a literal"""
    ofs, size = H.int('cofs', 0, 65535), H.int('csize', 1, 65535)
    H.assume(ofs + size <= len(base))
    n = H.int('clit', 1, 127)
    a = H.src('lit', n)
    t = base[ofs:ofs + size] + a
    return num(H, len(base), 3) + num(H, len(t), 3) + bytes([128 + 0x33, ofs % 256, ofs // 256, size % 256, size // 256, n]) + a, t


def layout(H, ents):
    """ents: (type, body, mid, gap before).  A pack of the entries with gaps in between, and its index.
    mid may be a function of the offset and the list of earlier offsets"""
    pos = 12
    parts = [b'PACK' + lib.u32(2) + lib.u32(len(ents))]
    offs, raws = [], []
    for j, (t, body, mid, gap) in enumerate(ents):
        if gap is not None:
            parts.append(gap)
            pos = pos + gap
        offs.append(pos)
        raw = entry(H, t, body, mid(pos, offs) if callable(mid) else mid, 'z%d' % j)
        raws.append(raw)
        parts.append(raw)
        pos = pos + len(raw)
    trailer = H.cells('trailer', 20)
    parts.append(trailer)
    H.put_sparse('pack-1.pack', parts)
    return offs, raws, trailer


def put_index(H, offs, crcs=None):
    """version 2 index of the entries; offsets of 2 GiB and more are in the large table"""
    words, large = [], []
    for o in offs:
        if o < (1 << 31):
            words.append(o)
        else:
            words.append((1 << 31) + len(large))
            large.append(o)
    H.reach('large %d' % len(large))
    shas = [sha(i) for i in range(len(offs))]
    idx = sorted(range(len(offs)), key=lambda i: shas[i])
    # the table of large offsets is filled in the order of the index
    words, large = [], []
    for i in idx:
        if offs[i] < (1 << 31):
            words.append(offs[i])
        else:
            words.append((1 << 31) + len(large))
            large.append(offs[i])
    H.put('pack-1.idx', lib.index_v2(H, [shas[i] for i in idx], [(crcs or [0] * len(offs))[i] for i in idx], words, large))
    return shas


def blob(H, i, lo, hi):
    return H.src('a%d' % i, H.int('n%d' % i, lo, hi))


def open_(H, via):
    from gitdb.pack import PackEntity
    from gitdb.db import PackedDB
    return PackEntity(H.root + '/pack-1.pack') if via == 'entity' else PackedDB(H.root)


def whole(H, via, maxgap, maxn, first):
    """whole objects before and after the gap"""
    a, b = blob(H, 0, 0, 15), blob(H, 1, 0, maxn)
    offs, raws, trailer = layout(H, [(3, a, b'', None), (3, b, b'', H.int('gap', 0, maxgap))])
    shas = put_index(H, offs)
    e = open_(H, via)
    for i in ((0, 1) if first == 0 else (1, 0)):
        data = (a, b)[i]
        st = check_obj(H, e, shas[i], b'blob', data)
        H.eq(st.read(), data, 'contents of an object in a large pack')
        if i == 1 and first == 0:
            st.stream.seek(0)
            k = H.int('k', 1, 1 << 20)
            H.eq(st.read(k), data[:k], 'a sized read of it')
    H.reach('whole')


def low(H, maxgap, maxn):
    """the interface of the pack file: by offset, by iteration, trailing checksum"""
    from gitdb.pack import PackFile
    a, b = blob(H, 0, 0, 200), blob(H, 1, 0, maxn)
    offs, raws, trailer = layout(H, [(3, a, b'', None), (1, b, b'', H.int('gap', 0, maxgap))])
    p = PackFile(H.root + '/pack-1.pack')
    H.check(p.size() == 2, 'number of objects')
    i = p.info(offs[1])
    H.check(i.pack_offset == offs[1], 'offset of the info')
    H.check(i.size == len(b), 'size at an offset')
    H.eq(i.type, b'commit', 'type at an offset')
    H.eq(p.stream(offs[1]).read(), b, 'contents at an offset')
    H.eq(bytes(p.checksum()), trailer, 'checksum of the pack')
    got = []
    for s in p.stream_iter(offs[1]):
        got.append(s)
        H.check(len(got) == 1, 'iteration ends at the end of the pack')
        H.check(s.pack_offset == offs[1], 'iteration: offset')
        H.check(s.size == len(b), 'iteration: size')
        H.eq(s.read(), b, 'iteration: contents')
    H.check(len(got) == 1, 'iteration finds the last object')
    H.check(p.info(offs[0]).size == len(a), 'size of the first object')
    H.reach('low')


def deltas(H, kind, nb, lo, hi, swap=False):
    """a delta with its base any distance away"""
    base = blob(H, 0, 16, 2000)
    d, t = make_delta(H, base)
    gap = H.int('gap', lo, hi)
    if kind == 'o':
        ents = [(3, base, b'', None), (6, d, lambda pos, offs: dist_enc(H, pos - offs[0], nb), gap)]
    else:
        ents = [(3, base, b'', None), (7, d, sha(0), gap)]
        if swap:
            ents = [(7, d, sha(1), None), (3, base, b'', gap)]
    offs, raws, trailer = layout(H, ents)
    shas = put_index(H, offs)
    e = open_(H, 'db' if swap else 'entity')
    k = 0 if swap else 1
    st = check_obj(H, e, shas[k], b'blob', t)
    H.eq(st.read(), t, 'delta applied to a base far away')
    H.eq(e.stream(shas[1 - k]).read(), base, 'the base')
    H.reach('delta')


def crc(H, maxgap, maxn):
    """checksum verification of entries around a gap"""
    from gitdb.pack import PackEntity
    a, b, c = blob(H, 0, 0, 100), blob(H, 1, 0, maxn), blob(H, 2, 0, 100)
    offs, raws, trailer = layout(H, [(3, a, b'', None), (3, b, b'', H.int('gap', 0, maxgap)), (3, c, b'', None)])
    good = [H.bit('good%d' % i) for i in (1, 2)]
    crcs = [0, zlib.crc32(raws[1]), zlib.crc32(raws[2])]
    for i in (1, 2):
        if not good[i - 1]:
            crcs[i] = H.int('crc%d' % i, 0, lib.U32)
            H.assume(H.no(crcs[i] == zlib.crc32(raws[i])))
    shas = put_index(H, offs, crcs)
    e = PackEntity(H.root + '/pack-1.pack')
    for i in (1, 2):
        H.check(e.is_valid_stream(shas[i], use_crc=True) == good[i - 1], 'verification compares the checksum of the entry')
    H.reach('crc')


def cases(tier):
    big = tier != 'quick'
    out = []

    def add(nm, fn, bounds, **p):
        out.append(dict(name=nm, fn=fn, params=p, bounds=bounds, max_steps=20000))
    top = 6 * GIB
    for via in ('entity', 'db'):
        for first in (0, 1):
            add('whole-%s-%d' % (via, first), whole, 'two objects of up to 60000 bytes, 0 to 6 GiB apart', via=via, maxgap=top, maxn=60000, first=first)
    add('low', low, 'pack file interface behind a gap of 0 to 6 GiB', maxgap=top, maxn=60000)
    rng = [(1, 0, 90), (2, 0, 16500), (3, 10000, 2 << 20), (4, 2 << 20, 270 << 20), (5, 264 << 20, top)]
    for nb, lo, hi in rng:
        add('ofs-%d' % nb, deltas, 'offset delta, base distance of %d bytes' % nb, kind='o', nb=nb, lo=lo, hi=hi)
    for swap in (False, True):
        add('ref-%d' % swap, deltas, 'reference delta, base up to 6 GiB away', kind='r', nb=0, lo=0, hi=top, swap=swap)
    add('crc', crc, 'checksum verification behind a gap of 0 to 6 GiB', maxgap=top, maxn=60000)
    return out
