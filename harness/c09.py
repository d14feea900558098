"""C09: pack index fields are returned exactly at any offset size."""
from harness import lib

ASSUMPTIONS = ['the index is valid: its tables have the sizes the last fan-out entry implies and large-offset '
               'references point into the large-offset table, which has at most one entry per object',
               'any-size cases: one index position at a time, tables of up to 2^22 entries']


def be(b):
    v = 0
    for i in range(len(b)):
        v = v * 256 + b[i]
    return v


def anysize(H, version, maxn):
    """index of any size, any contents, any position"""
    from gitdb.pack import PackIndexFile
    n = H.int('n', 1, maxn)
    i = H.int('i', 0, maxn - 1)
    H.assume(i < n)
    fan = H.src('fan', 1020)
    tail = H.src('packsum', 20) + H.src('idxsum', 20)
    if version == 2:
        names, crcs, words = H.src('names', n * 20), H.src('crcs', n * 4), H.src('words', n * 4)
        m = H.int('m', 0, maxn)
        H.assume(m <= n)
        large = H.src('large', m * 8)
        data = b'\xfftOc' + lib.u32(2) + fan + lib.u32(n) + names + crcs + words + large + tail
        sha = names[i * 20:i * 20 + 20]
        crc = be(crcs[i * 4:i * 4 + 4])
        w = be(words[i * 4:i * 4 + 4])
        if w < (1 << 31):
            H.reach('small')
            ofs = w
        else:
            j = w - (1 << 31)
            H.assume(j < m)
            H.reach('large')
            ofs = be(large[j * 8:j * 8 + 8])
    else:
        recs = H.src('recs', n * 24)
        data = fan + lib.u32(n) + recs + tail
        # a version 1 index does not start with the version 2 signature
        H.assume(fan[0] != 255)
        ofs = be(recs[i * 24:i * 24 + 4])
        sha = recs[i * 24 + 4:i * 24 + 24]
        crc = 0
    idx = PackIndexFile(H.put('x.idx', data))
    H.check(idx.version() == version, 'version')
    H.check(idx.size() == n, 'number of entries')
    H.eq(bytes(idx.sha(i)), sha, 'id at a position')
    H.check(idx.offset(i) == ofs, 'offset at a position')
    H.check(idx.crc(i) == crc, 'checksum at a position')
    e = idx.entry(i)
    H.check(len(e) == 3, 'entry has three fields')
    H.check(e[0] == ofs, 'entry: offset')
    H.eq(bytes(e[1]), sha, 'entry: id')
    H.check(e[2] == crc, 'entry: checksum')
    H.eq(bytes(idx.packfile_checksum()), tail[:20], 'pack checksum as stored')
    H.eq(bytes(idx.indexfile_checksum()), tail[20:], 'index checksum as stored')


def bulk(H, version, n, m):
    """all fields of a small index; every offset word, every large-table content"""
    from gitdb.pack import PackIndexFile
    shas = [bytes([40 * i + 5] * 20) for i in range(n)]
    packsum, idxsum = H.cells('packsum', 20), H.cells('idxsum', 20)
    if version == 2:
        crcs = [H.int('crc%d' % i, 0, lib.U32) for i in range(n)]
        words = [H.int('word%d' % i, 0, lib.U32) for i in range(n)]
        large = [H.int('large%d' % i, 0, (1 << 63) - 1) for i in range(m)]
        want = []
        for w in words:
            if w >= (1 << 31):
                j = w - (1 << 31)
                H.assume(j < m)
                want.append(large[H.conc(j)])
                H.reach('large')
            else:
                want.append(w)
        data = lib.index_v2(H, shas, crcs, words, large, packsum, idxsum)
    else:
        crcs = [0] * n
        want = [H.int('ofs%d' % i, 0, lib.U32) for i in range(n)]
        data = lib.index_v1(H, shas, want, packsum, idxsum)
    idx = PackIndexFile(H.put('x.idx', data))
    H.check(idx.version() == version, 'version')
    for i in range(n):
        H.check(idx.offset(i) == want[i], 'offset at a position')
        H.check(idx.crc(i) == crcs[i], 'checksum at a position')
        H.eq(bytes(idx.sha(i)), shas[i], 'id at a position')
    offs = list(idx.offsets())
    H.check(len(offs) == n, 'one bulk offset per entry')
    for i in range(n):
        H.check(offs[i] == want[i], 'bulk offset equals the offset of the entry')
    H.eq(bytes(idx.packfile_checksum()), packsum, 'pack checksum as stored')
    H.eq(bytes(idx.indexfile_checksum()), idxsum, 'index checksum as stored')
    H.reach('bulk')


def many(H, n, where):
    """one large offset somewhere in a long index"""
    from gitdb.pack import PackIndexFile
    shas = [bytes([(i * 256) // n]) + i.to_bytes(3, 'big') * 6 + b'.' for i in range(n)]
    k = H.pick('k', where)
    ofs = H.int('large', 1 << 31, (1 << 63) - 1)
    other = H.int('small', 0, (1 << 31) - 1)
    words = [12 + 7 * i for i in range(n)]
    words[(k + 1) % n] = other
    words[k] = 1 << 31
    idx = PackIndexFile(H.put('x.idx', lib.index_v2(H, shas, list(range(n)), words, [ofs])))
    H.check(idx.size() == n, 'number of entries')
    H.check(idx.offset(k) == ofs, 'offset at a position')
    offs = list(idx.offsets())
    H.check(len(offs) == n, 'one bulk offset per entry')
    for i in range(n):
        H.check(offs[i] == (ofs if i == k else other if i == (k + 1) % n else 12 + 7 * i),
                'bulk offset equals the offset of the entry')
    H.reach('many')


def cases(tier):
    big = tier != 'quick'
    out = []
    for v in (1, 2):
        out.append(dict(name='v%d-any' % v, fn=anysize, params=dict(version=v, maxn=(1 << 22)),
                        bounds='version %d, 1..2^22 entries, any contents, any position' % v))
        for n, m in (((0, 0), (1, 1), (2, 2), (3, 2), (4, 3), (5, 4)) if big else ((0, 0), (1, 1), (2, 2), (3, 2))):
            out.append(dict(name='v%d-bulk%d' % (v, n), fn=bulk, mode='bv', params=dict(version=v, n=n, m=m),
                            bounds='version %d, %d entries, %d large offsets, all words' % (v, n, m)))
    n, where = (3000, [0, 1, 255, 256, 1023, 1024, 2047, 2999]) if big else (1200, [0, 256, 1024, 1199])
    out.append(dict(name='v2-many', fn=many, params=dict(n=n, where=where), max_steps=200000,
                    bounds='version 2, %d entries, any large offset at position %s, any other offset at the next' % (n, where)))
    return out
