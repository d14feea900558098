"""C37: readers and writers at work in one directory at the same time."""
import hashlib
import os
from harness import lib
from harness.c01 import Feed, git_id
from harness.c16 import istream, names
from harness.c23 import OLD, OLDID, OLDNAME, complete, contents, objects, setup, sha

ASSUMPTIONS = ['two processes; every interleaving of their file system calls within the stated number of context switches; calls are atomic',
               'no switches at calls on a file that only its creator can know of (it still has the random name mkstemp gave it)',
               'temporary names are unique (mkstemp)', 'the compressor is modelled as emitting stored blocks on flush']

# the ids of the first two begin with the same byte
ONE, TWO, THREE = b'writer one', b'writer two 427', b'another writer'


def blob(data):
    return b'blob %d\0' % len(data) + data


def oid(data):
    return hashlib.sha1(blob(data)).digest()


def put(H, d, data):
    H.put(d + '/' + names(H, oid(data)), H.zstream('z' + data.hex()[-4:], [('stored', blob(data))]))


def fine(outcome):
    """the result of an actor that must not be disturbed"""
    r, e = outcome
    if e is not None:
        raise e
    return r


def stores(H, forms, a, b, switches):
    """two different objects"""
    from gitdb.db import LooseObjectDB
    H.mkdir('objects')
    if H.bit('old'):
        put(H, 'objects', THREE)
    if H.bit('dir'):
        H.mkdir('objects/' + oid(a).hex()[:2])
    before = H.files('objects')
    dbs = [LooseObjectDB(H.root + '/objects') for _ in range(2)]
    ists = [istream(H, f, b'blob', d, len(d), oid(d)) for f, d in zip(forms, (a, b))]

    def watch():
        for d in (a, b):
            got = H.get('objects/' + names(H, oid(d)))
            if got is not None:
                H.eq(H.zdecode(got), blob(d), 'whenever an object is visible it is complete')
    res = H.schedule(lambda: dbs[0].store(ists[0]), lambda: dbs[1].store(ists[1]), switches, watch, skip=True)
    for r, d in zip(res, (a, b)):
        H.eq(fine(r).binsha, oid(d), 'the id of the stored object')
    watch()
    H.check(sorted(H.files('objects')) == sorted(set(before + [names(H, oid(a)), names(H, oid(b))])), 'both objects and nothing else is there')
    H.reach('done')


def listing(H, switches, how):
    """a store and an enumeration"""
    from gitdb.db import LooseObjectDB
    H.mkdir('objects')
    put(H, 'objects', ONE)
    w, r = LooseObjectDB(H.root + '/objects'), LooseObjectDB(H.root + '/objects')
    new = H.pick('new', [TWO, THREE])
    ist = istream(H, H.pick('form', ['feed', 'sha']), b'blob', new, len(new), oid(new))

    def look():
        if how == 'size':
            return r.size()
        return [(s, r.info(s).size, r.stream(s).read()) for s in r.sha_iter()]
    res = H.schedule(lambda: w.store(ist), look, switches, skip=True)
    fine(res[0])
    got = fine(res[1])
    if how == 'size':
        H.check(got == 1 or got == 2, 'the number of objects before or after the store')
        H.reach('size')
        return
    H.check(len(got) in (1, 2), 'the objects before or after the store')
    seen = []
    for s, n, d in got:
        H.check(s in (oid(ONE), oid(new)) and s not in seen, 'only objects, each once')
        seen.append(s)
        want = ONE if s == oid(ONE) else new
        H.check(n == len(want), 'size')
        H.eq(d, want, 'contents')
    H.check(oid(ONE) in seen, 'what was there stays')
    H.reach('both' if len(got) == 2 else 'one')


def removing(H, kind, switches):
    """an object and the removal of its file (git has packed it)"""
    from gitdb.db import LooseObjectDB, GitDB
    from gitdb.exc import BadObject
    H.mkdir('objects')
    n = H.int('n', 0, 500)
    data = H.src('a', n)
    s = git_id(H, b'blob', data, n)
    name = names(H, s)
    H.put('objects/' + name, H.zstream('z', [('stored', b'blob ' + (b'%d' % n) + b'\0' + data)]))
    db = (LooseObjectDB if kind == 'loose' else GitDB)(H.root + '/objects')
    what = H.pick('what', ['stream', 'info', 'has'])

    def look():
        if what == 'has':
            return db.has_object(s)
        try:
            o = db.stream(s) if what == 'stream' else db.info(s)
        except BadObject:
            return None
        return o.type, o.size, o.read() if what == 'stream' else None
    got = fine(H.schedule(look, lambda: os.remove(H.root + '/objects/' + name), switches)[0])
    if what != 'has' and got is not None:
        H.eq(got[0], b'blob', 'the whole object or none: type')
        H.check(got[1] == n, 'the whole object or none: size')
        if what == 'stream':
            H.eq(got[2], data, 'the whole object or none: contents')
        H.reach('seen')
    else:
        H.reach('gone')
    db.update_cache(True)
    H.check(not db.has_object(s), 'it is gone after a refresh')


def old_served(H, db):
    H.check(db.has_object(OLDID), 'objects of older packs are served')
    H.eq(db.stream(OLDID).read(), OLD, 'objects of older packs are served')


def packing(H, k, old, kind, switches):
    """a pack is created while another process refreshes and asks for its objects"""
    from gitdb.pack import PackEntity
    from gitdb.db import PackedDB, GitDB
    before = setup(H, old)
    objs = objects(H, k)
    db = PackedDB(H.root + '/pack') if kind == 'packed' else GitDB(H.root)
    j = H.pick('j', list(range(k)))
    if H.bit('warm'):
        db.has_object(objs[j][0])

    def look():
        db.update_cache(True)
        if old:
            old_served(H, db)
        s = objs[j][0]
        if not db.has_object(s):
            return None
        return db.info(s).size, db.stream(s).read()
    res = H.schedule(lambda: PackEntity.create([o[4] for o in objs], H.root + '/pack'), look, switches, skip=True)
    e = fine(res[0])
    got = fine(res[1])
    if got is None:
        H.reach('not yet')
    else:
        H.check(got[0] == objs[j][2], 'an object of the new pack: size')
        H.eq(got[1], objs[j][3], 'an object of the new pack: contents')
        H.reach('seen')
    pack, idx, rest = complete(H, before, objs)
    H.check(pack and idx and rest == 0, 'the pack and its index are complete, there are no temporary files')
    contents(H, e, objs)
    db.update_cache(True)
    for s, t, n, data, _ in objs:
        H.check(db.has_object(s), 'the new objects are there after another refresh')
        H.eq(db.stream(s).read(), data, 'the new objects are there after another refresh')


def twins(H, k, switches):
    """two processes create the same pack"""
    from gitdb import OStream
    from gitdb.pack import PackEntity
    before = setup(H, False)
    objs = objects(H, k)
    again = [OStream(s, t, n, Feed(data, n)) for s, t, n, data, _ in objs]

    def watch():
        complete(H, before, objs)
    res = H.schedule(lambda: PackEntity.create([o[4] for o in objs], H.root + '/pack'),
                     lambda: PackEntity.create(again, H.root + '/pack'), switches, watch, skip=True)
    for r in res:
        contents(H, fine(r), objs)
    pack, idx, rest = complete(H, before, objs)
    H.check(pack and idx and rest == 0, 'one complete pack with its index and no temporary files')
    H.reach('done')


def dropping(H, switches):
    """a pack is removed while another process reads from it"""
    from gitdb.db import PackedDB
    from gitdb.exc import ODBError
    setup(H, True)
    db = PackedDB(H.root + '/pack')
    how = H.pick('how', ['cold', 'listed', 'read'])
    first = H.pick('first', ['.pack', '.idx'])
    if how != 'cold':
        db.has_object(OLDID)
    if how == 'read':
        old_served(H, db)
    refresh = H.bit('refresh')

    def look():
        try:
            if refresh:
                db.update_cache(True)
            return db.stream(OLDID).read()
        except (OSError, ODBError):
            return None

    def drop():
        for x in (first, '.idx' if first == '.pack' else '.pack'):
            os.remove(H.root + '/pack/' + OLDNAME + x)
    res = H.schedule(look, drop, switches)
    got = fine(res[0])
    fine(res[1])
    if got is not None:
        H.eq(got, OLD, 'the whole object or none')
        H.reach('seen')
    else:
        H.reach('gone')
    db.update_cache(True)
    H.check(not db.has_object(OLDID), 'after a refresh the pack is gone')
    H.check(list(db.sha_iter()) == [], 'after a refresh the pack is gone')


def locked(H, switches):
    """a locked file is written while another process reads the file"""
    from gitdb import util
    old = H.src('o', H.int('n', 0, 100))
    new = H.src('w', H.int('m', 0, 100))
    path = H.put('f', old)
    end = H.pick('end', ['commit', 'rollback'])

    def write():
        fd = util.LockedFD(path)
        st = fd.open(write=True, stream=True)
        st.write(new)
        getattr(fd, end)()
    res = H.schedule(write, lambda: bytes(util.file_contents_ro_filepath(path, allow_mmap=False)[:]), switches)
    fine(res[0])
    got = fine(res[1])
    H.check(H.any(H.same(got, old), end == 'commit' and H.same(got, new)), 'a reader gets the old or the new contents')
    H.eq(H.get('f'), new if end == 'commit' else old, 'the contents afterwards')
    H.check(H.files('') == ['f'], 'the lock is gone')
    H.reach(end)


def cases(tier):
    big = tier != 'quick'
    out = []
    sw = 5 if big else 3

    def add(nm, fn, bounds, **p):
        out.append(dict(name=nm, fn=fn, params=p, bounds=bounds, max_steps=20000, compressor='shared'))
    for forms in (('feed', 'feed'), ('feed', 'sha'), ('sha', 'sha')):
        for nm, b in (('same', TWO), ('other', THREE)):
            add('stores-%s-%s-%s' % (forms + (nm,)), stores, 'two given objects, up to %d context switches' % sw, forms=forms, a=ONE, b=b, switches=sw)
    for how in ('list', 'size'):
        add('listing-' + how, listing, 'up to %d context switches' % sw, switches=sw, how=how)
    for kind in ('loose', 'git'):
        add('removing-' + kind, removing, 'objects of up to 500 bytes, up to %d context switches' % (sw + 2), kind=kind, switches=sw + 2)
    for k, old, kind in ((1, False, 'packed'), (2, True, 'packed'), (1, True, 'git')):
        add('packing-%d%s-%s' % (k, '-old' if old else '', kind), packing, '%d objects of 16 to 2000 bytes, up to %d context switches' % (k, sw),
            k=k, old=old, kind=kind, switches=sw)
    add('twins-1', twins, 'one object of 16 to 2000 bytes, up to %d context switches' % sw, k=1, switches=sw)
    add('twins-2', twins, 'two objects of 16 to 2000 bytes, up to %d context switches' % (sw - 1), k=2, switches=sw - 1)
    add('dropping', dropping, 'up to %d context switches' % (sw + 1), switches=sw + 1)
    add('locked', locked, 'contents of up to 100 bytes, up to %d context switches' % (sw + 1), switches=sw + 1)
    return out


WITNESSES = {'quick': 10}
