"""C29: objects from streams that deliver less at a time are stored completely, from streams that end early not at all."""
from harness import lib
from harness.c01 import TYPES, git_id, verify, make_db, set_chunk
from harness.c10 import Sink

ASSUMPTIONS = ['the source delivers, per read, any positive number of bytes up to what was asked for, until it ends; the number of reads that '
               'deliver something is bounded',
               'copy chunks are lowered (symbolic) in some cases']


class Trickle:
    """a source of n bytes in pieces: like a pipe, a read returns what is there"""
    def __init__(self, H, data, n, pieces, name=''):
        self.H, self.data, self.n, self.left, self.name = H, data, n, pieces, name
        self.pos = 0
        self.i = 0

    def read(self, k=-1):
        H = self.H
        rest = self.n - self.pos
        if not (isinstance(k, int) and k < 0) and k < rest:
            rest = k
        if rest > 0 and self.i < self.left:
            p = H.int('%spiece%d' % (self.name, self.i), 1, 1 << 20)
            self.i += 1
            if p < rest:
                rest = p
                H.reach('short read')
        r = self.data[self.pos:self.pos + rest]
        self.pos = self.pos + rest
        return r


def store(H, kind, maxn, pieces, chunk=None):
    """the stream has as many bytes as announced, fewer, or more"""
    from gitdb import IStream
    db = make_db(H, kind)
    if chunk:
        set_chunk(H, db, kind, H.int('chunk', *chunk))
    t = H.pick('type', TYPES)
    n = H.int('n', 0, maxn)
    said = H.int('said', 0, maxn)
    data = H.src('a', n)
    ist, exc = H.catch(db.store, IStream(t, said, Trickle(H, data, n, pieces)))
    if n < said:
        H.check(exc is not None, 'a stream that ends early is an error')
        H.check(db.size() == 0, 'nothing is stored')
        H.check(list(db.sha_iter()) == [], 'nothing is enumerated')
        if kind != 'mem':
            H.check(H.files('objects') == [], 'no file is left')
            H.check(H.fds() == 0, 'no descriptor is left open')
        H.reach('ended early')
        return
    if exc is not None:
        raise exc
    # as announced, what follows is not part of the object
    obj = data[:said]
    sha = git_id(H, t, obj, said)
    H.eq(ist.binsha, sha, 'the id is the git id')
    verify(H, db, sha, t, obj, said)
    H.reach('stored')


def direct(H, kind, maxn, pieces):
    """compressed data with a known id is stored as it is delivered"""
    from gitdb import IStream
    db = make_db(H, kind)
    n = H.int('n', 0, maxn)
    data = H.src('a', n)
    z = H.zstream('z', [('stored', b'blob ' + (b'%d' % n) + b'\0' + data)])
    sha = bytes(range(20))
    db.store(IStream(b'blob', n, Trickle(H, z, len(z), pieces), sha))
    verify(H, db, sha, b'blob', data, n)
    x = sha.hex()
    H.eq(H.get('objects/%s/%s' % (x[:2], x[2:])), z, 'the file holds the data delivered')
    H.reach('stored')


def packed(H, k, maxn, pieces, chunk):
    """packs written from such streams"""
    from gitdb.pack import PackEntity
    from gitdb import OStream
    lib.set_chunk(H.int('chunk', *chunk))
    objs = []
    for i in range(k):
        n = H.int('n%d' % i, 16 if k > 1 else 0, maxn)
        said = H.int('said', 0, maxn) if i == k - 1 else n
        data = H.src('a%d' % i, n)
        objs.append((bytes([i + 1] * 20), TYPES[i], n, said, data, OStream(bytes([i + 1] * 20), TYPES[i], said, Trickle(H, data, n, pieces, '%d.' % i))))
    ps, xs = Sink(True), Sink(True)
    r, exc = H.catch(PackEntity.write_pack, [o[5] for o in objs], ps.write, xs.write)
    if objs[-1][2] != objs[-1][3]:
        H.check(exc is not None, 'an object with more or less data than its size is an error')
        H.reach('refused')
        return
    if exc is not None:
        raise exc
    H.put('pack-x.pack', b''.join(ps.parts))
    H.put('pack-x.idx', b''.join(xs.parts))
    e = PackEntity(H.root + '/pack-x.idx')
    for s, t, n, _, data, _ in objs:
        st = e.stream(s)
        H.eq(st.type, t, 'type')
        H.check(st.size == n, 'size')
        H.eq(st.read(), data, 'contents')
    H.reach('packed')


def cases(tier):
    big = tier != 'quick'
    out = []

    def add(nm, fn, bounds, **p):
        out.append(dict(name=nm, fn=fn, params=p, bounds=bounds, max_steps=10000))
    P = 4 if big else 3
    for kind in ('loose', 'mem', 'git'):
        add('store-' + kind, store, 'objects of up to 5000 bytes, %d short reads, any announced size' % P, kind=kind, maxn=5000, pieces=P)
        if kind != 'git':
            add('chunked-' + kind, store, 'objects copied in chunks of 20 to 60 bytes, 2 short reads', kind=kind, maxn=100, pieces=2, chunk=(20, 60))
    for kind in ('loose', 'git'):
        add('direct-' + kind, direct, 'compressed objects of up to 5000 bytes stored under a known id, %d short reads' % P, kind=kind, maxn=5000, pieces=P)
    add('pack-1', packed, '1 object of up to 2000 bytes, %d short reads' % P, k=1, maxn=2000, pieces=P, chunk=(2001, 4096))
    add('pack-2', packed, '2 objects of 16 to 2000 bytes, 2 short reads each', k=2, maxn=2000, pieces=2, chunk=(2001, 4096))
    add('pack-chunked', packed, '1 object, chunks of 20 to 60 bytes, 2 short reads', k=1, maxn=100, pieces=2, chunk=(20, 60))
    return out
