"""C01: stored objects read back identical under their git id."""
import hashlib

ASSUMPTIONS = ['the copy chunk of the database is lowered (symbolic) so that object sizes on both sides of its multiples are '
               'within the bound; the code is the same for every chunk size',
               'the compressor is modelled as emitting stored blocks on flush, or as opaque bytes where nothing reads them back']

TYPES = [b'blob', b'tree', b'commit', b'tag']


def make_db(H, kind):
    from gitdb.db import LooseObjectDB, GitDB, MemoryDB
    if kind == 'loose':
        return LooseObjectDB(H.mkdir('objects'))
    if kind == 'git':
        return GitDB(H.mkdir('objects'))
    return MemoryDB()


def set_chunk(H, db, kind, chunk):
    from gitdb.db import LooseObjectDB
    LooseObjectDB.stream_chunk_size = chunk


def content(H, name, chunk, around):
    """content whose size lies anywhere within the chunk multiples of `around`"""
    lo, hi = around
    n = H.int(name + '.n', 0, 1 << 20)
    H.assume(n >= lo * chunk)
    H.assume(n <= hi * chunk + 1)
    return H.src(name, n), n


def git_id(H, typ, data, n):
    h = hashlib.sha1(typ + b' ' + (b'%d' % n) + b'\0')
    h.update(data)
    return h.digest()


def verify(H, db, sha, typ, data, n, label=''):
    H.check(db.has_object(sha), label + 'the stored object is there')
    info = db.info(sha)
    H.eq(info.binsha, sha, label + 'info: id')
    H.eq(info.type, typ, label + 'info: type')
    H.check(info.size == n, label + 'info: size')
    st = db.stream(sha)
    H.eq(st.binsha, sha, label + 'stream: id')
    H.eq(st.type, typ, label + 'stream: type')
    H.check(st.size == n, label + 'stream: size')
    H.eq(st.read(), data, label + 'stream: contents')


class Feed:
    """a minimal stream: read(n) gives exactly the next n bytes or what is left"""
    def __init__(self, data, n):
        self.data, self.n, self.pos = data, n, 0

    def read(self, n):
        e = self.pos + n
        if e > self.n:
            e = self.n
        r = self.data[self.pos:e]
        self.pos = e
        return r


class Drip:
    """a stream that may return less than asked for: it stops at given positions"""
    def __init__(self, data, n, stops):
        self.data, self.n, self.pos, self.stops = data, n, 0, stops

    def read(self, n):
        e = self.pos + n
        for s in self.stops:
            if self.pos < s and s < e:
                e = s
                break
        if e > self.n:
            e = self.n
        r = self.data[self.pos:e]
        self.pos = e
        return r


def drip(H, kind, maxn, stops):
    """the object is fed by a stream that returns less than asked for now and then"""
    from gitdb import IStream
    db = make_db(H, kind)
    set_chunk(H, db, kind, H.int('chunk', maxn // 2, 2 * maxn))
    n = H.int('n', 100, maxn)
    data = H.src('a', n)
    at = []
    for i in range(stops):
        at.append(H.int('stop%d' % i, 1, maxn))
        if i:
            H.assume(at[i - 1] < at[i])
    t = TYPES[stops % 4]
    ist = db.store(IStream(t, n, Drip(data, n, at)))
    want = git_id(H, t, data, n)
    H.eq(ist.binsha, want, 'the id is the git id')
    verify(H, db, want, t, data, n)
    if kind != 'mem':
        x = want.hex()
        H.eq(H.zdecode(H.get('objects/' + x[:2] + '/' + x[2:])), t + b' ' + (b'%d' % n) + b'\0' + data,
             'the object file has the git format')
    H.reach('dripped')


def store(H, kind, chunk, around, feed, typ=None):
    from gitdb import IStream
    from io import BytesIO
    chunk = H.int('chunk', chunk[0], chunk[1])
    db = make_db(H, kind)
    set_chunk(H, db, kind, chunk)
    t = TYPES[typ] if typ is not None else H.pick('type', TYPES)
    data, n = content(H, 'a', chunk, around)
    st = BytesIO(data) if feed == 'bytesio' else Feed(data, n)
    ist = db.store(IStream(t, n, st))
    want = git_id(H, t, data, n)
    H.eq(ist.binsha, want, 'the id is the git id')
    H.eq(ist.hexsha, want.hex().encode(), 'the hexadecimal id is the git id')
    verify(H, db, want, t, data, n)
    if kind != 'mem':
        x = want.hex()
        f = H.files('objects')
        H.check(len(f) == 1 and x[:2] + '/' + x[2:] in f, 'exactly one object file is left')
        back = H.zdecode(H.get('objects/' + x[:2] + '/' + x[2:]))
        H.check(back is not None, 'the object file is one zlib stream')
        H.eq(back, t + b' ' + (b'%d' % n) + b'\0' + data, 'the object file has the git format')
        # a second database object over the same directory
        verify(H, make_db(H, kind), want, t, data, n, 'other instance: ')
    H.check(db.size() == 1, 'one object is stored')
    H.check([bytes(s) for s in db.sha_iter()] == [want], 'the object is enumerated')
    H.reach('stored')


def several(H, kind, k, maxn, same):
    """several objects after each other, the last one stored again"""
    from gitdb import IStream
    from io import BytesIO
    db = make_db(H, kind)
    objs = []
    for i in range(k):
        t = TYPES[(i * 2) % 4]
        n = H.int('n%d' % i, 0, maxn)
        data = H.src('a%d' % i, n)
        if i and same == 'type':
            # same content, other type: another object
            data, n = objs[0][2], objs[0][3]
        ist = db.store(IStream(t, n, BytesIO(data)))
        objs.append((ist.binsha, t, data, n))
    sha, t, data, n = objs[-1]
    ist = db.store(IStream(t, n, BytesIO(data)))
    H.eq(ist.binsha, sha, 'storing an object again gives the same id')
    for sha, t, data, n in objs:
        H.eq(sha, git_id(H, t, data, n), 'the id is the git id')
        verify(H, db, sha, t, data, n)
    # and in the other order, on open streams
    st = [db.stream(o[0]) for o in objs]
    if kind != 'mem':
        for s, (sha, t, data, n) in zip(st, objs):
            H.eq(s.read(), data, 'streams of several objects do not disturb each other')
    H.reach('several')


def override(H, kind, chunk, around, writer):
    """an output stream override produces the same id and leaves the database alone"""
    from gitdb import IStream
    from gitdb.stream import Sha1Writer, ZippedStoreShaWriter
    from io import BytesIO
    chunk = H.int('chunk', chunk[0], chunk[1])
    db = make_db(H, kind)
    set_chunk(H, db, kind, chunk)
    t = H.pick('type', TYPES)
    data, n = content(H, 'a', chunk, around)
    w = Sha1Writer() if writer == 'sha1' else ZippedStoreShaWriter()
    db.set_ostream(w)
    H.check(db.ostream() is w, 'the override is installed')
    ist = db.store(IStream(t, n, BytesIO(data)))
    want = git_id(H, t, data, n)
    H.eq(ist.binsha, want, 'the id is the git id')
    H.eq(w.sha(), want, 'the override saw the object')
    H.check(len(H.files('objects')) == 0, 'the database is left unchanged')
    H.check(not db.has_object(want), 'the object is not in the database')
    if writer == 'zip':
        w.close()
        H.eq(H.zdecode(w.getvalue()), t + b' ' + (b'%d' % n) + b'\0' + data, 'the override received the same bytes')
    old = db.set_ostream(None)
    H.check(old is w, 'the previous override is returned')
    ist = db.store(IStream(t, n, BytesIO(data)))
    verify(H, db, want, t, data, n, 'after the override: ')
    H.reach('override')


def cases(tier):
    big = tier != 'quick'
    out = []

    def add(nm, fn, bounds, **p):
        out.append(dict(name=nm, fn=fn, params=p, bounds=bounds, max_steps=6000))
    for kind in ('loose', 'git', 'mem'):
        for feed in ('bytesio', 'exact'):
            for lo, hi in ((0, 1), (1, 2), (2, 3), (3, 5)) + (((5, 9),) if big else ()):
                add('%s-%s-%d' % (kind, feed, lo), store,
                    'sizes from %d to %d chunks and one more byte, chunk 5000..60000, any type and content' % (lo, hi),
                    kind=kind, chunk=(10000, 12000) if lo else (1, 60), around=(lo, hi), feed=feed, typ=None if lo == 0 else lo % 4)
        add('%s-small' % kind, store, 'sizes 0..12 in chunks of 1..4', kind=kind, chunk=(1, 4), around=(0, 3), feed='bytesio')
        add('%s-several' % kind, several, '2 objects of up to 9 bytes, one stored twice', kind=kind, k=2, maxn=9, same=None)
        for k in (1, 2, 3) if big else (1, 2):
            add('%s-drip%d' % (kind, k), drip, 'a stream of 100 to 999 bytes that returns less than asked for at up to %d positions' % k,
                kind=kind, maxn=999, stops=k)
        add('%s-types' % kind, several, 'same content under 2 types', kind=kind, k=2, maxn=9999, same='type')
    for kind in ('loose', 'git'):
        for w in ('sha1', 'zip'):
            add('%s-override-%s' % (kind, w), override, 'sizes up to 2 chunks and one more byte', kind=kind, chunk=(1, 400), around=(0, 2), writer=w)
    return out
