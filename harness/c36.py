"""C36: objects survive being packed and repacked."""
from harness import lib
from harness.c01 import TYPES, git_id, verify
from harness.c07 import build, orders, check_obj, TYPES as PTYPES
from harness.c16 import names

ASSUMPTIONS = ['up to 3 objects with any contents; which are packed, which loose files are removed and what is asked in between are symbolic',
               'the compressor is modelled as emitting stored blocks on flush']


def absent(H, db, sha):
    from gitdb.exc import BadObject
    H.check(not db.has_object(sha), 'a removed object is gone')
    res, exc = H.catch(db.stream, sha)
    if exc is not None and not isinstance(exc, BadObject):
        raise exc
    H.check(exc is not None, 'a removed object is reported missing')


def gc(H, n, maxn, ask, fresh):
    """loose objects, some of which move into a pack"""
    from gitdb import IStream
    from gitdb.db import GitDB
    from gitdb.pack import PackEntity
    from io import BytesIO
    H.mkdir('objects/pack')
    db = GitDB(H.root + '/objects')
    objs = []
    for i in range(n):
        k = H.int('n%d' % i, 100 if i else 0, maxn)
        data = H.src('a%d' % i, k)
        t = TYPES[i]
        sha = db.store(IStream(t, k, BytesIO(data))).binsha
        objs.append((sha, t, data, k))
    if ask:
        for sha, t, data, k in objs:
            if H.bit('asked.' + t.decode()):
                verify(H, db, sha, t, data, k, 'before: ')
    packed = [H.bit('packed%d' % i) for i in range(n)]
    gone = [H.bit('gone%d' % i) for i in range(n)]
    H.settle()
    if any(packed):
        e = PackEntity.create([db.stream(o[0]) for o, p in zip(objs, packed) if p], H.root + '/objects/pack')
        for o, p in zip(objs, packed):
            if p:
                H.check(e.is_valid_stream(o[0], use_crc=True), 'the packed object is valid (crc)')
                H.check(e.is_valid_stream(o[0], use_crc=False), 'the packed object is valid (id)')
        H.reach('packed')
    for o, g in zip(objs, gone):
        if g:
            H.unlink('objects/' + names(H, o[0]))
    if fresh:
        db = GitDB(H.root + '/objects')
    else:
        db.update_cache(force=True)
    count = 0
    for i, (sha, t, data, k) in enumerate(objs):
        if packed[i] or not gone[i]:
            verify(H, db, sha, t, data, k, 'after: ')
            count += packed[i] + (not gone[i])
            H.reach('served')
        else:
            absent(H, db, sha)
            H.reach('removed')
    H.check(db.size() == count, 'size')
    H.check(H.fds() <= 2, 'no descriptor is left open')


def repack(H, chain, forms, maxbase, copies):
    """a pack with deltas is written anew, copies times; afterwards only the last one exists"""
    from gitdb.pack import PackEntity
    objs, shas = build(H, chain, forms, maxbase, 2, orders(chain))
    e = PackEntity(H.root + '/pack-1.pack')
    for c in range(copies):
        H.mkdir('new%d' % c)
        e = PackEntity.create(e.stream_iter(), H.root + '/new%d' % c, object_count=len(objs))
    H.check(e.index().size() == len(objs), 'the new pack has all objects')
    for i, d in enumerate(objs):
        st = check_obj(H, e, shas[i], PTYPES[2], d)
        H.eq(st.read(), d, 'the contents')
        H.check(e.is_valid_stream(shas[i], use_crc=True), 'the packed object is valid (crc)')
    for s in e.pack().stream_iter():
        H.check(s.type_id == 3, 'nothing is deltified')
    H.reach('repacked')


def cases(tier):
    big = tier != 'quick'
    out = []

    def add(nm, fn, bounds, **p):
        out.append(dict(name=nm, fn=fn, params=p, bounds=bounds, max_steps=40000))
    for ask in (0, 1):
        for fresh in (0, 1):
            add('gc%d%d-1' % (ask, fresh), gc, 'one object of up to 3000 bytes', n=1, maxn=3000, ask=ask, fresh=fresh)
            add('gc%d%d-2' % (ask, fresh), gc, 'two objects, the second of 100 to 999 bytes', n=2, maxn=999, ask=ask, fresh=fresh)
    if big:
        add('gc-3', gc, 'three objects', n=3, maxn=999, ask=1, fresh=0)
    for chain in ('o', 'r', 'oo', 'or') + (('ro', 'rr', 'ooo') if big else ()):
        add('repack-' + chain, repack, 'a pack with the delta chain %s on a base of 16 to 60 bytes, written anew' % chain, chain=chain, forms=['ci'], maxbase=60, copies=1)
    add('repack2-o', repack, 'a pack with a delta, written anew twice', chain='o', forms=['ic'], maxbase=60, copies=2)
    return out
