"""C13: a compound database serves exactly the union of its parts."""
import os

from harness import lib
from harness.c03 import header

ASSUMPTIONS = ['a fixed family of ids; which part holds which of them, before and after the change, what is asked in '
               'between and in which order, are symbolic',
               'a change is followed by update_cache(), as the library asks for, forced or not, and gives the directories a newer time stamp']


def ids(n):
    return [bytes([0x11 * (i + 1)] * 19 + [i]) for i in range(n)]


class World:
    """which part holds which id"""
    def __init__(self, H, parts, n, tag):
        self.have = [[H.flag('%s%d.%d' % (tag, p, i)) for i in range(n)] for p in range(parts)]
        self.changed = [H.flag('%schanged%d' % (tag, p)) for p in range(parts)]
        self.size = [H.int('%ssize%d' % (tag, p), 0, 1000) for p in range(parts)]


def part_class():
    from gitdb.db.base import ObjectDBR, CachingDB
    from gitdb.exc import BadObject

    class Part(ObjectDBR, CachingDB):
        def __init__(self, num, fam):
            self.num, self.fam, self.world, self.updates = num, fam, None, 0

        def has_object(self, sha):
            return self.world.have[self.num][self.fam.index(sha)]

        def info(self, sha):
            if not self.has_object(sha):
                raise BadObject(sha)
            return ('info', self.num, sha)

        def stream(self, sha):
            if not self.has_object(sha):
                raise BadObject(sha)
            return ('stream', self.num, sha)

        def size(self):
            return self.world.size[self.num]

        def sha_iter(self):
            for i, s in enumerate(self.fam):
                if self.world.have[self.num][i]:
                    yield s

        def update_cache(self, force=False):
            self.updates += 1
            return self.world.changed[self.num]
    return Part


def combine(tree, parts):
    """tree: nested lists of part numbers"""
    from gitdb.db.base import CompoundDB

    class Compound(CompoundDB):
        def __init__(self, dbs):
            super().__init__()
            self._dbs = list(dbs)
    return Compound([combine(t, parts) if isinstance(t, list) else parts[t] for t in tree])


def ask(H, db, kind, s, i, world, mentioned):
    """one query, judged against the current contents"""
    from gitdb.exc import BadObject
    anywhere = H.any(*[world.have[p][i] for p in mentioned])
    if kind == 0:
        H.check(bool(db.has_object(s)) == anywhere, 'has_object is true exactly for contained objects')
    elif kind == 1:
        H.check((s in db) == anywhere, '"in" agrees with has_object')
    else:
        res, exc = H.catch(db.info if kind == 2 else db.stream, s)
        if exc is not None:
            if not isinstance(exc, BadObject):
                raise exc
            H.check(H.no(anywhere), 'only an absent object is reported missing')
            H.reach('missing')
        else:
            H.check(res[0] == ('info' if kind == 2 else 'stream') and res[2] == s, 'the answer is for the id asked for')
            H.check(world.have[res[1]][i], 'the answer comes from a part that has the object')
            H.reach('served')


def flatten(t):
    out = []
    for x in t:
        out.extend(flatten(x) if isinstance(x, list) else [x])
    return out


def stubs(H, tree, nparts, n, before, after, kinds=(0, 3), near=None):
    """parts with any contents"""
    fam = ids(n)
    if near:
        at = H.pick('at', near)
        fam = [fam[0][:at] + bytes([fam[0][at] ^ (1 << i)]) + fam[0][at + 1:] for i in range(n)]
    parts = [part_class()(p, fam) for p in range(nparts)]
    db = combine(tree, parts)
    w = World(H, nparts, n, 'a')
    for p in parts:
        p.world = w
    named = flatten(tree)
    H.check(len(db.databases()) == len(tree), 'databases() lists the parts')
    for k in range(before):
        i = H.pick('q%d.id' % k, list(range(n))) if k else 0        # the ids are symmetric
        ask(H, db, H.pick('q%d.kind' % k, kinds), fam[i], i, w, named)
    w2 = World(H, nparts, n, 'b')
    for p in parts:
        p.world = w2
    res = db.update_cache(force=H.flag('force'))
    H.check(H.implies(H.any(*[w2.changed[p] for p in named]), res), 'a refresh reports changes of its parts')
    for p in named:
        H.check(parts[p].updates >= 1, 'a refresh reaches every part')
    for k in range(after):
        i = H.pick('r%d.id' % k, list(range(n)))
        ask(H, db, H.pick('r%d.kind' % k, [0, 1, 2, 3]), fam[i], i, w2, named)
    total = 0
    for p in named:
        total = total + w2.size[p]
    H.check(db.size() == total, 'size is the sum over the parts')
    H.reach('done')


def listing(H, tree, nparts, n):
    fam = ids(n)
    parts = [part_class()(p, fam) for p in range(nparts)]
    db = combine(tree, parts)
    w = World(H, nparts, n, 'a')
    for p in parts:
        p.world = w
    got = list(db.sha_iter())
    for p in flatten(tree):
        for i, s in enumerate(fam):
            H.check(H.implies(w.have[p][i], s in got), 'enumeration lists the objects of every part')
    for i, s in enumerate(fam):
        if s in got:
            H.check(H.any(*[w.have[p][i] for p in flatten(tree)]), 'enumeration lists nothing else')
    H.reach('listed')


# ---- a git database over real files

CONTENT = [b'one', b'two!', b'three']


def put_loose(H, rel, i, s):
    c = CONTENT[i]
    x = s.hex()
    H.put(rel + '/' + x[:2] + '/' + x[2:], H.zstream('lz.%s.%d' % (rel, i), [('stored', b'blob %d\0' % len(c) + c)]))


def put_pack(H, rel, which, fam):
    """a pack with these objects"""
    data = b'PACK' + lib.u32(2) + lib.u32(len(which))
    offs = []
    for i in which:
        offs.append(len(data))
        data = data + header(3, len(CONTENT[i]), 1) + H.zstream('pz.%s.%d' % (rel, i), [('stored', CONTENT[i])])
    H.put(rel + '.pack', data + b'T' * 20)
    H.put(rel + '.idx', lib.index_v2(H, [fam[i] for i in which], [0] * len(which), offs))


def apply_world(H, places, old, new, fam):
    for p, bits in new.items():
        was = old.get(p) if old else None
        if p.startswith('pack') or p.endswith('pack'):
            rel = {'pack0': 'git/pack/pack-0', 'pack1': 'git/pack/pack-1', 'altpack': 'alt/pack/pack-2'}[p]
            if was == bits:
                continue
            if was and any(was):
                if not any(bits):
                    H.unlink(rel + '.pack')
                    H.unlink(rel + '.idx')
                    continue
            if any(bits):
                if was and any(was):
                    # packs are never rewritten in place: replaced under another name
                    H.unlink(rel + '.pack')
                    H.unlink(rel + '.idx')
                    rel = rel + 'b'
                put_pack(H, rel, [i for i, b in enumerate(bits) if b], fam)
        else:
            rel = {'loose': 'git', 'altloose': 'alt'}[p]
            for i, b in enumerate(bits):
                if b and not (was and was[i]):
                    put_loose(H, rel, i, fam[i])
                elif was and was[i] and not b:
                    x = fam[i].hex()
                    H.unlink(rel + '/' + x[:2] + '/' + x[2:])


def git(H, places, n, kinds, alt):
    from gitdb.db import GitDB
    from gitdb.exc import BadObject
    fam = ids(n + 1)
    H.mkdir('git/pack')
    if alt:
        H.mkdir('alt/pack')
        H.put('git/info/alternates', (H.root + '/alt\n').encode())
    old = {p: [H.bit('a.%s.%d' % (p, i)) for i in range(n)] for p in places}
    apply_world(H, places, None, old, fam)
    db = GitDB(H.root + '/git')
    for i in range(n):
        if H.bit('asked%d' % i):
            H.check(db.has_object(fam[i]) == any(old[p][i] for p in places), 'has_object before the change')
    new = {p: [H.bit('b.%s.%d' % (p, i)) for i in range(n)] for p in places}
    force = H.bit('force')
    H.settle(not force)
    apply_world(H, places, old, new, fam)
    db.update_cache(force=force)
    want = 0
    for i, s in enumerate(fam):
        there = i < n and any(new[p][i] for p in places)
        want += sum(new[p][i] for p in places) if i < n else 0
        for kind in kinds:
            if kind == 'has':
                H.check(db.has_object(s) == there, 'has_object is true exactly for contained objects')
                H.check((s in db) == there, '"in" agrees with has_object')
            else:
                res, exc = H.catch(getattr(db, kind), s)
                if exc is not None and not isinstance(exc, BadObject):
                    raise exc
                H.check((exc is None) == there, 'exactly the contained objects are served')
                if exc is None:
                    H.eq(bytes(res.binsha), s, 'id')
                    H.check(res.size == len(CONTENT[i]), 'size')
                    H.eq(res.type, b'blob', 'type')
                    if kind == 'stream':
                        H.eq(res.read(), CONTENT[i], 'data')
                    H.reach('served')
    H.check(db.size() == want, 'size is the sum over the parts')
    H.check(set(db.sha_iter()) == set(s for i, s in enumerate(fam[:n]) if any(new[p][i] for p in places)), 'enumeration')


def cases(tier):
    big = tier != 'quick'
    out = []

    def add(nm, fn, bounds, **p):
        out.append(dict(name=nm, fn=fn, params=p, bounds=bounds, max_steps=20000))
    for nm, tree, np in (('flat1', [0], 1), ('flat2', [0, 1], 2), ('flat3', [0, 1, 2], 3), ('nest', [0, [1, 2]], 3), ('deep', [[0], [[1]], 2], 3), ('empty', [], 0)):
        if np:
            add('stubs-' + nm, stubs, '%d parts as %s with any contents of 2 ids, 2 queries, any change, %d queries' % (np, tree, 2 if big else 1),
                tree=tree, nparts=np, n=2, before=2, after=2 if big else 1)
        add('list-' + nm, listing, '%d parts with any contents of 3 ids' % np, tree=tree, nparts=np, n=3 if np < 3 or big else 2)
    add('stubs-after2', stubs, '2 parts, two queries after a refresh', tree=[0, 1], nparts=2, n=2, before=0, after=2)
    add('stubs-near', stubs, '2 parts, ids that differ in one byte, at any position', tree=[0, 1], nparts=2, n=2, before=2, after=1,
        near=list(range(20)) if big else [1, 7, 19])
    add('stubs-none', stubs, 'no parts', tree=[], nparts=1, n=2, before=1, after=1)
    for nm, places in (('pl', ['pack0', 'loose']), ('pp', ['pack0', 'pack1'])):
        add('git-' + nm, git, 'every placement of 2 ids over %s, before and after a change' % places, places=places, n=2, kinds=['has', 'info', 'stream'] if big else ['has', 'stream'], alt=False)
    for nm, places in (('la', ['loose', 'altpack']), ('al', ['altloose', 'pack0']), ('alp', ['altloose', 'pack0', 'loose'])):
        add('git-' + nm, git, 'every placement of ids over %s, before and after a change' % places, places=places,
            n=2 if len(places) < 3 or big else 1, kinds=['has', 'info', 'stream'] if big else ['has', 'stream'], alt=True)
    return out
