"""C11: an index written for any set of entries reads back entry for entry."""
from harness import lib
import hashlib

ASSUMPTIONS = ['ids are pairwise distinct', 'pack offsets below 2^63',
               'lookups in the written index use representative first bytes; C08 covers all first bytes for any '
               'index with the layout proved here']


def entries(H, n, hi, firsts=None):
    from gitdb.pack import IndexWriter
    shas, ents = [], []
    w = IndexWriter()
    for i in range(n):
        if firsts is None:
            sha = H.cells('sha%d' % i, 20)
        else:
            sha = bytes([H.pick('first%d' % i, firsts)]) + H.cells('sha%d' % i, 19)
        for s in shas:
            H.assume(H.no(sha == s))
        shas.append(sha)
        crc = H.int('crc%d' % i, 0, lib.U32)
        ofs = H.int('ofs%d' % i, 0, hi)
        w.append(sha, crc, ofs)
        ents.append((sha, crc, ofs))
    packsum = H.cells('packsum', 20)
    parts = []
    ret = w.write(packsum, lambda d: parts.append(d))
    data = b''.join([bytes(p) for p in parts])
    # specification: ascending ids
    order = []
    for e in ents:
        k = 0
        while k < len(order) and order[k][0] < e[0]:
            k += 1
        order.insert(k, e)
    return order, packsum, data, ret


def layout(H, n):
    """the file written is byte for byte the version 2 index of the entries"""
    order, packsum, data, ret = entries(H, n, (1 << 63) - 1)
    large, words = [], []
    for _, _, ofs in order:
        if ofs < (1 << 31):
            words.append(ofs)
        else:
            words.append((1 << 31) + len(large))
            large.append(ofs)
    H.reach('large %d' % len(large))
    p = 1032
    H.eq(data[p:p + 20 * n], b''.join([e[0] for e in order]), 'ids ascending')
    p += 20 * n
    H.eq(data[p:p + 4 * n], b''.join([lib.u32(e[1]) for e in order]), 'checksums')
    p += 4 * n
    H.eq(data[p:p + 4 * n], b''.join([lib.u32(x) for x in words]), 'offset words')
    p += 4 * n
    H.eq(data[p:p + 8 * len(large)], b''.join([lib.u64(x) for x in large]), 'large offsets')
    p += 8 * len(large)
    H.eq(data[p:p + 20], packsum, 'pack checksum')
    p += 20
    H.check(len(data) == p + 20, 'nothing else in the file')
    H.eq(data[p:], hashlib.sha1(data[:p]).digest(), 'trailing checksum covers the file')
    H.eq(ret, data[p:], 'the reported checksum is the one written')


def fan(H, n):
    """signature and fan-out table, for every first byte of every id"""
    from gitdb.pack import IndexWriter
    shas = [H.cells('first%d' % i, 1) + bytes([i + 1] * 19) for i in range(n)]
    w = IndexWriter()
    for i, s in enumerate(shas):
        w.append(s, i, 12 + i)
    parts = []
    w.write(b'P' * 20, lambda d: parts.append(d))
    data = b''.join([bytes(p) for p in parts])
    H.eq(data[:8], b'\xfftOc' + lib.u32(2), 'signature and version')
    head = lib.fanout(H, shas)
    for b in range(256):
        H.learn(data[8 + 4 * b:12 + 4 * b] == head[4 * b:4 * b + 4], 'fan-out entry')
    H.check(len(data) == 1032 + 28 * n + 40, 'size of the file')
    H.reach('fan')


def readback(H, n, hi):
    from gitdb.pack import PackIndexFile
    order, packsum, data, ret = entries(H, n, hi, (0, 0x7f, 0xff) if n > 2 else (0, 1, 0x7f, 0x80, 0xff))
    idx = PackIndexFile(H.put('x.idx', data))
    H.check(idx.version() == 2, 'version')
    H.check(idx.size() == n, 'number of entries')
    k = H.conc(H.int('k', 0, n - 1))
    sha, crc, ofs = order[k]
    H.eq(bytes(idx.sha(k)), sha, 'id at its sorted position')
    H.check(idx.crc(k) == crc, 'its checksum')
    H.check(idx.offset(k) == ofs, 'its offset')
    H.check(idx.sha_to_index(sha) == k, 'lookup finds it')
    H.eq(bytes(idx.packfile_checksum()), packsum, 'pack checksum')
    H.eq(bytes(idx.indexfile_checksum()), ret, 'index checksum')
    H.reach('k %d' % k)


def many(H, n, smalls):
    """hundreds of entries beyond 2 GiB, in any of a few orders"""
    from gitdb.pack import IndexWriter
    shas = [bytes([(i * 256) // n]) + i.to_bytes(3, 'big') * 6 + b'.' for i in range(n)]
    gap = H.int('gap', 1, 1 << 40)
    small = H.int('small', 0, (1 << 31) - 1)
    order = H.pick('order', ['up', 'down', 'mixed'])
    seq = list(range(n))
    if order == 'down':
        seq.reverse()
    elif order == 'mixed':
        seq = [(i * 7) % n for i in range(n)]
    offs = [small if i in smalls else (1 << 31) + gap * i for i in range(n)]
    w = IndexWriter()
    for i in seq:
        w.append(shas[i], i, offs[i])
    parts = []
    ret = w.write(b'P' * 20, lambda d: parts.append(d))
    data = b''.join([bytes(p) for p in parts])
    want = lib.index_v2(H, shas, list(range(n)),
                        [small if i in smalls else (1 << 31) + i - len([k for k in smalls if k < i]) for i in range(n)],
                        [offs[i] for i in range(n) if i not in smalls], b'P' * 20, b'')
    H.eq(data[:-20], want, 'the file is the version 2 index of the entries')
    H.eq(data[-20:], hashlib.sha1(want).digest(), 'trailing checksum covers the file')
    H.eq(ret, data[-20:], 'the reported checksum is the one written')
    H.reach('many')


def cases(tier):
    big = tier != 'quick'
    out = []
    for n in range(0, 6 if big else 4):
        out.append(dict(name='layout%d' % n, fn=layout, mode='bv', params=dict(n=n),
                        bounds='%d entries in every order, every id, crc, offset below 2^63' % n))
    for n in range(1, 4 if big else 3):
        out.append(dict(name='fan%d' % n, fn=fan, mode='bv', params=dict(n=n), weight=3.0,
                        bounds='%d entries, every first byte of every id' % n))
    for n in range(1, 5 if big else 4):
        out.append(dict(name='readback%d' % n, fn=readback, mode='bv', params=dict(n=n, hi=(1 << 63) - 1),
                        bounds='%d entries, first id byte in {00,01,7f,ff}, every rest, crc, offset' % n))
    for n in (300, 1001) if big else (300,):
        out.append(dict(name='many%d' % n, fn=many, params=dict(n=n, smalls=[0, 2, n // 2]), max_steps=200000,
                        bounds='%d given ids, three offsets below 2^31 and the others any multiple above it' % n))
    return out
