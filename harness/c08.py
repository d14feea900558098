"""C08: pack index lookup finds exactly the listed ids."""
from harness import lib
import struct
import hashlib

ASSUMPTIONS = ['the index is valid: ids strictly ascending, fan-out table consistent with them']


def sym_table(H, version, n):
    """n unconstrained ids in ascending order, any query"""
    from gitdb.pack import PackIndexFile
    shas = lib.sorted_shas(H, n)
    if version == 2:
        data = lib.index_v2(H, shas, [7 * i for i in range(n)], [12 + i for i in range(n)])
    else:
        data = lib.index_v1(H, shas, [12 + i for i in range(n)])
    q = H.cells('query', 20)
    idx = PackIndexFile(H.put('x.idx', data))
    r = idx.sha_to_index(q)
    if r is None:
        H.reach('absent')
        for s in shas:
            H.check(H.no(s == q), 'an id reported absent is not listed')
    else:
        H.reach('found')
        H.check(H.all(r >= 0, r < n), 'the position lies in the table')
        i = H.conc(r)
        H.eq(shas[i], q, 'the position holds the id')
    H.check(idx.size() == n, 'number of entries')


def table_ids(n, spread):
    out = set()
    i = 0
    while len(out) < n:
        h = bytearray(hashlib.sha1(b'%d' % i).digest())
        if spread == 'tight':
            h[0] = (0, 0x7f, 0x80, 0xff)[i % 4]
        elif spread == 'one':
            h[0] = 0x42
        elif spread == 'edge':
            h[0] = 0xff if i % 2 else 0
            h[1:19] = b'\0' * 18 if i % 3 else b'\xff' * 18
        out.add(bytes(h))
        i += 1
    return sorted(out)


def const_table(H, version, n, spread):
    """a larger table with known ids, any query"""
    from gitdb.pack import PackIndexFile
    shas = table_ids(n, spread)
    if version == 2:
        data = lib.index_v2(H, shas, [7 * i for i in range(n)], [12 + i for i in range(n)])
    else:
        data = lib.index_v1(H, shas, [12 + i for i in range(n)])
    q = H.cells('query', 20)
    idx = PackIndexFile(H.put('x.idx', data))
    r = idx.sha_to_index(q)
    if r is None:
        H.reach('absent')
        H.check(H.no(H.any(*[s == q for s in shas])), 'an id reported absent is not listed')
    else:
        H.reach('found')
        H.check(H.all(r >= 0, r < n), 'the position lies in the table')
        i = H.conc(r)
        H.eq(shas[i], q, 'the position holds the id')


def pack_db(H, n, version):
    """has_object of a packed database over such an index"""
    from gitdb.db import PackedDB
    shas = lib.sorted_shas(H, n)
    if version == 2:
        data = lib.index_v2(H, shas, [0] * n, [12] * n)
    else:
        data = lib.index_v1(H, shas, [12] * n)
    H.put('pack-1.pack', b'PACK' + lib.u32(2) + lib.u32(n) + b'\0' * 20)
    H.put('pack-1.idx', data)
    q = H.cells('query', 20)
    db = PackedDB(H.root)
    r = db.has_object(q)
    H.check(H.any(*[s == q for s in shas]) if r else H.no(H.any(*[s == q for s in shas])),
            'has_object is true exactly for listed ids')
    H.reach('db %s' % r)


def cases(tier):
    big = tier != 'quick'
    out = []
    for v in (1, 2):
        for n in range(0, 9 if big else 6):
            out.append(dict(name='v%d-n%d' % (v, n), fn=sym_table, mode='bv', params=dict(version=v, n=n),
                            bounds='version %d, %d ids with every content, every query' % (v, n)))
        for n, spread in (((40, 'tight'), (30, 'edge'), (200, 'any'), (1000, 'any'), (24, 'one'), (70, 'one')) if big else ((12, 'tight'), (12, 'edge'), (40, 'any'), (24, 'one'))):
            out.append(dict(name='v%d-table%d-%s' % (v, n, spread), fn=const_table, mode='bv',
                            params=dict(version=v, n=n, spread=spread),
                            bounds='version %d, one fixed table of %d ids (%s), every 20-byte query' % (v, n, spread)))
        out.append(dict(name='v%d-db' % v, fn=pack_db, mode='bv', params=dict(version=v, n=2),
                        bounds='packed database over one index of 2 ids, every query'))
    return out
