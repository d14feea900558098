"""C34: undeltified objects are streamed in pieces, however large they are."""
from harness import lib
from harness.c01 import TYPES, git_id, make_db, Feed
from harness.c03 import header

ASSUMPTIONS = ['objects of 40 to 48 million bytes, about ten times the copy chunk of the library; the sizes of sized reads are symbolic',
               'symbolically every single allocation made while streaming is judged, the replay measures the peak of all of them (tracemalloc; '
               'mappings of files do not count)',
               'the compressor is modelled as emitting stored blocks on flush']

LIMIT = 24 * 1000 * 1000
LO, HI = 40 * 1000 * 1000, 48 * 1000 * 1000
SMALL = 2 * 1000 * 1000


def feed(H, name='a'):
    n = H.int(name + '.n', LO, HI)
    data = H.src(name, n)
    return data, n


def store(H, kind, t):
    from gitdb import IStream
    db = make_db(H, kind)
    data, n = feed(H)
    ist = H.within(LIMIT, 'storing never holds a large part of the object', db.store, IStream(t, n, Feed(data, n)))
    H.eq(ist.binsha, git_id(H, t, data, n), 'the id is the git id')
    H.reach('stored')


def transfer(H):
    """from one database into another"""
    from gitdb import IStream
    from gitdb.db import LooseObjectDB
    a = LooseObjectDB(H.mkdir('a'))
    b = LooseObjectDB(H.mkdir('b'))
    data, n = feed(H)
    sha = a.store(IStream(b'blob', n, Feed(data, n))).binsha

    def go():
        o = a.stream(sha)
        return b.store(IStream(o.type, o.size, o))
    ist = H.within(LIMIT, 'copying never holds a large part of the object', go)
    H.eq(ist.binsha, sha, 'the copy has the same id')
    H.check(b.size() == 1, 'the copy is there')
    H.reach('copied')


def in_pack(H, data, n):
    """a pack with this object between two small ones, its index, its id"""
    from gitdb import OStream
    from gitdb.pack import PackEntity
    objs = [(b'\x11' * 20, b'tree', 3, b'abc'), (git_id(H, b'blob', data, n), b'blob', n, data), (b'\xee' * 20, b'tag', 2, b'xy')]
    parts, idx = [], []
    PackEntity.write_pack([OStream(s, t, k, Feed(d, k)) for s, t, k, d in objs], lambda d: parts.append(bytes(d)), lambda d: idx.append(bytes(d)))
    H.put('pack/pack-1.pack', b''.join(parts))
    H.put('pack/pack-1.idx', b''.join(idx))
    return objs[1][0]


def make(H, kind):
    """a database with one large object"""
    from gitdb import IStream
    from gitdb.db import PackedDB, GitDB
    data, n = feed(H)
    if kind in ('loose', 'git'):
        db = make_db(H, kind)
        sha = db.store(IStream(b'blob', n, Feed(data, n))).binsha
        return db, sha, data, n
    sha = in_pack(H, data, n)
    db = PackedDB(H.root + '/pack') if kind == 'packed' else GitDB(H.root)
    return db, sha, data, n


def read(H, kind):
    """sized reads, with a rewind in between; nothing of the object is kept"""
    db, sha, data, n = make(H, kind)
    k = H.int('k', 3500000, 5000000)

    def go():
        st = db.stream(sha)
        out = 0
        first = st.read(k)
        H.check(len(first) == k, 'the size of a sized read')
        first = None
        st.stream.seek(0)
        while True:
            d = st.read(k)
            m = len(d)
            if m == 0:
                break
            out = out + m
        H.check(out == n, 'everything was read')
    H.within(LIMIT, 'reading in pieces never holds a large part of the object', go)
    H.reach('read')


def look(H, kind):
    """questions that do not need the contents"""
    db, sha, data, n = make(H, kind)

    def go():
        H.check(db.has_object(sha), 'it is there')
        i = db.info(sha)
        H.check(i.size == n, 'its size')
        H.eq(i.type, b'blob', 'its type')
        s = db.stream(sha)
        H.check(s.size == n, 'the size of its stream')
        H.eq(s.read(10), data[:10], 'its first bytes')
        H.check(db.size() >= 1, 'it is counted')
        H.check(sha in list(db.sha_iter()), 'it is enumerated')
    H.within(SMALL, 'looking an object up does not load it', go)
    H.reach('looked')


class Drop:
    """a stream without contents in memory, and one that keeps nothing"""
    def __init__(self):
        self.n = 0

    def write(self, d):
        return len(d)


def pack_write(H):
    from gitdb import OStream
    from gitdb.pack import PackEntity
    data, n = feed(H)
    sink = Drop()
    objs = [OStream(b'\x11' * 20, b'blob', n, Feed(data, n)), OStream(b'\x12' * 20, b'tag', 2, Feed(b'xy', 2))]
    H.within(LIMIT, 'writing a pack never holds a large part of an object', PackEntity.write_pack, objs, sink.write, sink.write)
    H.reach('written')


def pack_create(H):
    """from a loose database"""
    from gitdb import IStream
    from gitdb.db import LooseObjectDB
    from gitdb.pack import PackEntity
    db = LooseObjectDB(H.mkdir('objects'))
    data, n = feed(H)
    sha = db.store(IStream(b'blob', n, Feed(data, n))).binsha
    H.mkdir('pack')
    e = H.within(LIMIT, 'creating a pack never holds a large part of an object', lambda: PackEntity.create([db.stream(sha)], H.root + '/pack'))
    H.check(e.index().size() == 1, 'the pack has the object')
    H.reach('created')


def pack_walk(H, how):
    from gitdb.pack import PackEntity
    data, n = feed(H)
    sha = in_pack(H, data, n)
    e = PackEntity(H.root + '/pack/pack-1.pack')

    def go():
        if how == 'crc' or how == 'sha':
            H.check(e.is_valid_stream(sha, use_crc=how == 'crc'), 'the object is intact')
        elif how == 'walk':
            got = [(s.type, s.size) for s in e.pack().stream_iter()]
            H.check(len(got) == 3, 'all objects are visited')
        else:
            got = [i.size for i in e.info_iter()]
            H.check(len(got) == 3, 'all objects are visited')
    H.within(LIMIT, 'going through a pack never holds a large part of an object', go)
    H.reach('walked')


def cases(tier):
    out = []

    def add(nm, fn, bounds, comp='stored', **p):
        out.append(dict(name=nm, fn=fn, params=p, bounds=bounds, max_steps=60000, compressor=comp))
    size = 'one object of 40 to 48 million bytes'
    for kind in ('loose', 'git'):
        add('store-' + kind, store, size, kind=kind, t=b'blob')
    for kind in ('loose', 'git', 'packed', 'gitpack'):
        add('read-' + kind, read, size + ', reads of 3.5 to 5 million bytes', kind=kind)
        add('look-' + kind, look, size, kind=kind)
    add('transfer', transfer, size + ' copied between loose databases')
    add('pack-write', pack_write, size + ' and a small one')
    add('pack-create', pack_create, size + ' from a loose database')
    for how in ('crc', 'sha', 'walk', 'info'):
        add('pack-' + how, pack_walk, size + ' between two small ones', how=how)
    return out
