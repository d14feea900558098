"""C28: truncated object data is an error, never short or padded contents."""
from harness import lib
from harness.c02 import shape
from harness.c03 import header, LIM
from harness.c05 import num
from harness.c07 import sha, ofs_enc

ASSUMPTIONS = ['the data is a valid zlib stream cut off at any byte, or one that decompresses to less than its header announces',
               'zlib streams are made of stored blocks, runs compressed by zlib and empty blocks as listed per case']


def judge(H, st, obj, reads, label, cap=1 << 20):
    """read until the end of the object; what comes back is right or an exception"""
    size = len(obj)
    pos = 0
    for i in range(reads):
        n = H.int('r%d' % i, 1, cap)
        got, exc = H.catch(st.read, n)
        if exc is not None:
            H.reach('refused')
            return
        want = size - pos
        if n < want:
            want = n
        H.eq(got, obj[pos:pos + want], label + 'a read returns the next bytes or fails')
        pos = pos + want
    got, exc = H.catch(st.read)
    if exc is not None:
        H.reach('refused')
        return
    H.eq(got, obj[pos:], label + 'reading the rest returns all of it or fails')
    H.reach('complete')


def stored(H, kind, maxlen, head):
    parts, obj = shape(H, kind, maxlen)
    n = len(obj)
    if head:
        h = b'blob ' + (b'%d' % n) + b'\0'
        if parts and parts[0][0] in ('stored', 'last'):
            parts[0] = (parts[0][0], h + parts[0][1])
        else:
            parts.insert(0, ('stored', h))
    return H.zstream('z', parts), obj


def loose(H, kind, maxlen, reads, git=False):
    """an object file cut off at any byte"""
    from gitdb.db import LooseObjectDB, GitDB
    m, obj = stored(H, kind, maxlen, True)
    cut = H.int('cut', 0, 1 << 20)
    H.assume(cut <= len(m))
    s = bytes(range(20))
    H.put('objects/%s/%s' % (s.hex()[:2], s.hex()[2:]), m[:cut])
    db = (GitDB if git else LooseObjectDB)(H.mkdir('objects'))
    info, exc = H.catch(db.info, s)
    if exc is None:
        H.eq(info.type, b'blob', 'the type or a failure')
        H.check(info.size == len(obj), 'the size or a failure')
    st, exc = H.catch(db.stream, s)
    if exc is not None:
        H.check(cut < len(m), 'an intact object can be read')
        H.reach('no header')
        return
    H.eq(st.type, b'blob', 'the type or a failure')
    H.check(st.size == len(obj), 'the size or a failure')
    if cut == len(m):
        H.reach('intact')
        H.eq(st.read(), obj, 'an intact object can be read')
        return
    judge(H, st, obj, reads, 'loose: ')


def liar(H, kind, maxlen, reads, extra):
    """the header announces more than the data has"""
    from gitdb.db import LooseObjectDB
    parts, obj = shape(H, kind, maxlen)
    n = H.int('announced', 0, 1 << 20)
    H.assume(n > len(obj))
    H.assume(n <= len(obj) + extra)
    parts.insert(0, ('stored', b'tree ' + (b'%d' % n) + b'\0'))
    s = bytes(range(20))
    H.put('objects/%s/%s' % (s.hex()[:2], s.hex()[2:]), H.zstream('z', parts))
    st = LooseObjectDB(H.mkdir('objects')).stream(s)
    pos = 0
    for i in range(reads):
        k = H.int('r%d' % i, 1, 1 << 20)
        got, exc = H.catch(st.read, k)
        if exc is not None:
            H.check(pos + k > len(obj), 'what is there can be read')
            H.reach('refused')
            return
        H.check(pos + k <= len(obj), 'a read beyond the data fails')
        H.eq(got, obj[pos:pos + k], 'a read returns the next bytes')
        pos = pos + k
    got, exc = H.catch(st.read)
    H.check(exc is not None, 'reading data that is not there fails')
    H.reach('missing')


def pack_of(H, ents):
    """ents: (type, announced size, zlib data, mid) -> offsets, pack"""
    data = b'PACK' + lib.u32(2) + lib.u32(len(ents))
    offs = []
    for t, size, z, mid in ents:
        offs.append(len(data))
        nb = 1
        while size >= LIM[nb - 1]:
            nb += 1
        if callable(mid):
            mid = mid(offs)
        data = data + header(t, size, nb) + mid + z
    return offs, data


def index_of(H, offs):
    shas = [sha(i) for i in range(len(offs))]
    idx = sorted(range(len(offs)), key=lambda i: shas[i])
    H.put('pack-1.idx', lib.index_v2(H, [shas[i] for i in idx], [0] * len(offs), [offs[i] for i in idx]))
    return shas


def packcut(H, kind, maxlen, reads):
    """a pack file cut off within its last entry"""
    from gitdb.db import PackedDB
    m, obj = stored(H, kind, maxlen, False)
    offs, data = pack_of(H, [(2, len(obj), m, b'')])
    cut = H.int('cut', 13, 1 << 20)
    H.assume(cut < len(data))
    H.put('pack-1.pack', data[:cut])
    shas = index_of(H, offs)
    st, exc = H.catch(PackedDB(H.root).stream, shas[0])
    if exc is not None:
        H.reach('no header')
        return
    judge(H, st, obj, reads, 'packed: ')


def packliar(H, what, maxlen, kind):
    """the entry announces more than its data: of a whole object, a delta, the base of a delta"""
    from gitdb.pack import PackEntity
    base = H.src('base', H.int('nbase', 16, maxlen))
    bn = len(base)
    more = H.int('more', 1, 1000)
    n = H.int('lit', 1, 100)
    a = H.src('l', n)
    announced = bn + more if what == 'base' else bn
    d = num(H, announced, 3) + num(H, announced + n, 3) + bytes([128 + 0x30, announced % 256, announced // 256, n]) + a
    z1 = H.zstream('z1', [('stored', base)])
    z2 = H.zstream('z2', [('stored', d)])
    dn = len(d) + (more if what == 'delta' else 0)
    if what == 'whole':
        offs, data = pack_of(H, [(3, bn + more, z1, b'')])
    elif kind == 'o':
        offs, data = pack_of(H, [(3, announced, z1, b''), (6, dn, z2, lambda offs: ofs_enc(H, offs[1] - offs[0]))])
    else:
        offs, data = pack_of(H, [(3, announced, z1, b''), (7, dn, z2, sha(0))])
    H.put('pack-1.pack', data + b'T' * 20)
    shas = index_of(H, offs)
    e = PackEntity(H.root + '/pack-1.pack')
    r, exc = H.catch(lambda: e.stream(shas[-1]).read())
    H.check(exc is not None, 'an object with less data than announced can not be read')
    H.reach('refused')


def cases(tier):
    big = tier != 'quick'
    out = []

    def add(nm, fn, bounds, **p):
        out.append(dict(name=nm, fn=fn, params=p, bounds=bounds, max_steps=10000))
    R = 2 if big else 1
    for k, m in (('s', 900), ('S', 900), ('t', 0), ('X', 0), ('ss', 120), ('te', 0), ('sf', 200), ('ts', 100), ('', 0), ('Z', 0)) + \
            ((('sts', 100), ('fs', 400), ('zt', 0), ('bbb', 12)) if big else ()):
        for r in (0, R) if k != 'Z' else (0,):
            add('loose-%s-%d' % (k, r), loose, 'object file of shape %s (stored parts up to %d bytes) cut anywhere, %d sized reads' % (k, m, r),
                kind=k, maxlen=m, reads=r, git=r == 0 and k == 'ss')
        if k != 'Z':
            add('pack-%s' % k, packcut, 'pack cut within an entry of shape %s' % k, kind=k, maxlen=m, reads=R)
        if k != 'Z':
            add('liar-%s' % k, liar, 'object of shape %s announcing up to 5000 bytes more' % k, kind=k, maxlen=m, reads=R, extra=5000)
    add('liar-long', liar, 'object of up to 60000 bytes announcing up to 65536 bytes more', kind='s', maxlen=60000, reads=0, extra=65536)
    for w in ('whole', 'base', 'delta'):
        for k in 'or' if w != 'whole' else 'o':
            add('packliar-%s-%s' % (w, k), packliar, 'entry announcing up to 1000 bytes more than its data', what=w, maxlen=1000, kind=k)
    return out
