"""C14: a packed database follows the packs on disk and ignores query history."""
from harness.c13 import ids, put_pack, CONTENT

ASSUMPTIONS = ['a fixed family of ids; which packs exist before and after, what they hold and the queries in between are symbolic',
               'a pack is never rewritten in place (as git does)',
               'changes after a refresh give the directory a newer time stamp than changes before it']


def put(H, name, bits, fam):
    put_pack(H, 'pack/' + name, [i for i, b in enumerate(bits) if b], fam)


def noise(H):
    H.put('pack/tmp_pack_xyz', b'PACK')
    H.put('pack/pack-old.idx', b'not an index')
    H.put('pack/pack-0.keep', b'')


# some names are the beginning of another one, or its part, or differ in case only
NAMES = {'a': ['pack-1', 'pack-1x', 'pack-1X'], 'b': ['pack-12', 'pack-2'], 'c': ['pack-pack-1'], 'd': ['pack-1.pack']}


def world(H, tag, packs, n):
    """{name: contents} of the packs that exist"""
    out = {}
    for p in range(packs):
        if H.bit('%s.%d' % (tag, p)):
            out[NAMES[tag][p]] = [H.bit('%s.%d.%d' % (tag, p, i)) for i in range(n)]
    return out


def ask(H, db, kind, i, fam, w):
    from gitdb.exc import BadObject
    s = fam[i]
    there = i < len(fam) - 1 and any(c[i] for c in w.values())
    if kind == 'has':
        H.check(db.has_object(s) == there, 'has_object is true exactly if one of the packs lists the object')
        return
    res, exc = H.catch(getattr(db, kind), s)
    if exc is not None and not isinstance(exc, BadObject):
        raise exc
    H.check((exc is None) == there, 'an object is found exactly if one of the packs lists it')
    if exc is None:
        H.eq(bytes(res.binsha), s, 'what is returned has the id asked for')
        H.eq(res.type, b'blob', 'and its type')
        H.check(res.size == len(CONTENT[i]), 'and its size')
        if kind == 'stream':
            H.eq(res.read(), CONTENT[i], 'and its data')
        H.reach('served')


def everything(H, db, fam, w, kinds):
    want = {H.root + '/pack/' + p + '.pack' for p in w}
    got = [e.pack().path() for e in db.entities()]
    H.check(len(got) == len(set(got)), 'every pack is there once')
    H.check(set(got) == want, 'the database consists of exactly the packs on disk')
    H.check(db.size() == sum(sum(c) for c in w.values()), 'size() counts the objects of all packs')
    H.check(sorted(db.sha_iter()) == sorted(fam[i] for c in w.values() for i, b in enumerate(c) if b), 'enumeration')
    for i in range(len(fam)):
        for k in kinds:
            ask(H, db, k, i, fam, w)


def refresh(H, packs, n, added, queries, interval, rounds, kinds):
    from gitdb.db import PackedDB
    fam = ids(n + 1)
    H.mkdir('pack')
    noise(H)
    cur = world(H, 'a', packs, n)
    for name, c in cur.items():
        put(H, name, c, fam)
    PackedDB._sort_interval = interval
    db = PackedDB(H.root + '/pack')
    for r in range(rounds):
        for k in range(queries):
            ask(H, db, 'has' if k % 2 else 'stream', H.pick('q%d.%d' % (r, k), list(range(n))), fam, cur)
        if r or not queries:
            everything(H, db, fam, cur, ['has'])
        nxt = {p: c for p, c in cur.items() if H.bit('keep%d.%s' % (r, p))}
        force = H.bit('force%d' % r)
        H.settle(not force)
        for p in cur:
            if p not in nxt:
                H.unlink('pack/' + p + '.pack')
                H.unlink('pack/' + p + '.idx')
        fresh = world(H, 'bcd'[r], added, n)
        for p, c in fresh.items():
            put(H, p, c, fam)
        nxt.update(fresh)
        res, exc = H.catch(db.update_cache, *([True] if force else []))
        if exc is not None:
            raise exc
        cur = nxt
        everything(H, db, fam, cur, kinds)


def priorities(H, packs, n, interval):
    """any state that earlier queries can leave behind"""
    from gitdb.db import PackedDB
    fam = ids(n + 1)
    H.mkdir('pack')
    w = {'pack-%d' % p: [H.bit('in%d.%d' % (p, i)) for i in range(n)] for p in range(packs)}
    for name, c in w.items():
        put(H, name, c, fam)
    PackedDB._sort_interval = interval
    db = PackedDB(H.root + '/pack')
    db.entities()
    ent = getattr(db, '_entities', None)
    if not isinstance(ent, list) or not all(isinstance(x, list) and len(x) == 3 and isinstance(x[0], int) for x in ent) or not hasattr(db, '_hit_count'):
        return      # the bookkeeping is organised differently
    total = 0
    for k, x in enumerate(ent):
        x[0] = H.int('hits%d' % k, 0, 1 << 20)
        total = total + x[0]
    db._hit_count = H.int('count', 0, 1 << 20)
    for k in range(2):
        ask(H, db, 'has' if k else 'stream', H.pick('q%d' % k, list(range(n + 1))), fam, w)
    H.reach('asked')


def partly(H, n):
    """packs without an index come and go"""
    from gitdb.db import PackedDB
    fam = ids(n + 1)
    H.mkdir('pack')
    have = {}
    for p in ('pack-x', 'pack-y'):
        st = H.pick('first.' + p, ['none', 'half', 'whole'])
        c = [H.bit('%s.%d' % (p, i)) for i in range(n)]
        have[p] = (st, c)
        if st != 'none':
            put(H, p, c, fam)
            if st == 'half':
                H.unlink('pack/' + p + '.idx')
    db = PackedDB(H.root + '/pack')
    everything(H, db, fam, {p: c for p, (st, c) in have.items() if st == 'whole'}, ['has'])
    force = H.bit('force')
    H.settle(not force)
    for p, (st, c) in list(have.items()):
        if st == 'half':
            st = H.pick('then.' + p, ['half', 'whole', 'none'])
            if st == 'whole':
                put(H, p, c, fam)
            elif st == 'none':
                H.unlink('pack/' + p + '.pack')
        elif st == 'whole' and H.bit('lose.' + p):
            H.unlink('pack/' + p + '.idx')
            st = 'half'
        have[p] = (st, c)
    res, exc = H.catch(db.update_cache, force)
    if exc is not None:
        raise exc
    everything(H, db, fam, {p: c for p, (st, c) in have.items() if st == 'whole'}, ['has', 'stream'])
    H.reach('partly')


def cases(tier):
    big = tier != 'quick'
    out = []

    def add(nm, fn, bounds, **p):
        out.append(dict(name=nm, fn=fn, params=p, bounds=bounds, max_steps=30000))
    add('refresh-1', refresh, 'up to 2 packs and 1 added, 1 id, 2 queries', packs=2, n=1, added=1, queries=2, interval=1, rounds=1, kinds=['has', 'info', 'stream'])
    add('refresh-2', refresh, 'up to 2 packs and 1 added, 2 ids, 1 query', packs=2, n=2, added=1, queries=1, interval=500, rounds=1, kinds=['has', 'stream'])
    add('refresh-3', refresh, 'up to 3 packs, 1 id', packs=3, n=1, added=1, queries=0, interval=500, rounds=1, kinds=['stream'])
    add('refresh-add', refresh, '1 pack and up to 2 added, 2 ids', packs=1, n=2, added=2, queries=1, interval=2, rounds=1, kinds=['stream'])
    add('refresh-twice', refresh, 'two rounds of changes', packs=1, n=1, added=1, queries=1, interval=1, rounds=2, kinds=['stream'])
    for n in (1,) + ((2,) if big else ()):
        add('partly-%d' % n, partly, '2 packs, with or without an index, which comes or goes', n=n)
    if big:
        add('refresh-thrice', refresh, 'three rounds of changes', packs=1, n=1, added=1, queries=1, interval=1, rounds=3, kinds=['stream'])
        add('refresh-big', refresh, 'up to 3 packs and 2 added, 1 id', packs=3, n=1, added=2, queries=2, interval=1, rounds=1, kinds=['stream'])
    for p in (2, 3):
        for iv in (1, 500):
            add('prio-%d-%d' % (p, iv), priorities, '%d packs with any contents of 2 ids, any hit counts, 2 queries' % p, packs=p, n=2 if p < 3 or big else 1, interval=iv)
    return out
