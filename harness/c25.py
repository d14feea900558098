"""C25: enumerating a database agrees with looking objects up."""
from harness import lib
from harness.c13 import CONTENT, put_pack, put_loose
from harness.c01 import TYPES, git_id

ASSUMPTIONS = ['for directories: a fixed family of ids that differ in single digits at the ends; which are stored, and which foreign '
               'files and directories lie around, are symbolic',
               'for packs: ids of any content (all 160 bits symbolic), both in the packs and asked for']

HEX = ['00' + '0' * 38, 'ab' + '1' * 38, 'ab' + '1' * 37 + '2', 'ff' + 'f' * 38]
ABSENT = ['00' + '0' * 37 + '1', 'ab' + '1' * 37 + '3', 'ac' + '1' * 38, 'fe' + 'f' * 38]


def ids(l):
    return [bytes.fromhex(x) for x in l]


NOISE = {
    'tmp': ['objabc_123', 'tmp_obj_Qwerty', 'ab/tmp_obj_AbCdEf', '00/objxyz'],
    'info': ['info/packs', 'info/commit-graph', 'pack/pack-old.keep', 'pack/tmp_pack_xyz'],
    'quarantine': ['incoming-Ab12/ab/' + '3' * 38, 'tmp_objdir-incoming-xyz/cd/' + '4' * 38],
    'names': ['zz/' + 'z' * 38, 'a/' + '5' * 39, 'abc/' + '5' * 37, 'ab/' + '6' * 37, 'ab/' + '6' * 39, 'ab/' + '7' * 36 + '.x', 'ab/' + '6' * 40, 'ab/' + '6' * 36],
    'upper': ['AB/' + '1' * 38, 'ab/' + 'AB' * 19, 'aB/' + 'a' * 38, '00/' + '0' * 37 + 'F'],
    'dirs': [],
    'deep': ['cd/ef/' + '8' * 38, 'pack/ab/' + '9' * 38],
}


def noise(H, rel, kinds):
    for k in kinds:
        if H.bit('noise.' + k):
            for f in NOISE[k]:
                H.put(rel + '/' + f, b'x')
            if k == 'dirs':
                for x in ABSENT[:2]:
                    H.mkdir(rel + '/' + x[:2] + '/' + x[2:])
    if H.bit('noise.empty'):
        H.mkdir(rel + '/ba')


def missing(H, db, s):
    from gitdb.exc import BadObject
    for f in (db.info, db.stream):
        res, exc = H.catch(f, s)
        H.check(isinstance(exc, BadObject), 'looking up an absent id reports a missing object')
    H.check(not db.has_object(s), 'has_object is false for an absent id')


def agree(H, db, want, absent, label=''):
    got = [bytes(s) for s in db.sha_iter()]
    H.check(sorted(got) == sorted(want), label + 'the enumeration is exactly the ids stored')
    H.check(db.size() == len(got), label + 'size() is the number of ids enumerated')
    for s in set(want):
        H.check(db.has_object(s), label + 'has_object is true for every id enumerated')
        H.eq(bytes(db.info(s).binsha), s, label + 'every id enumerated is served')
    for s in absent:
        missing(H, db, s)


def loose(H, n, kinds, root, slash):
    from gitdb.db import LooseObjectDB
    fam = ids(HEX[:n])
    H.mkdir(root)
    noise(H, root, kinds)
    here = []
    for i, s in enumerate(fam):
        if H.bit('in%d' % i):
            put_loose(H, root, i % 3, s)
            here.append(s)
    db = LooseObjectDB(H.root + '/' + root + ('/' if slash else ''))
    agree(H, db, here, [s for s in fam if s not in here] + ids(ABSENT))
    H.reach('agreed')


def stored(H, root, n):
    """objects stored by the library itself"""
    from gitdb import IStream
    from gitdb.db import LooseObjectDB, MemoryDB
    from io import BytesIO
    db = MemoryDB() if root is None else LooseObjectDB(H.mkdir(root))
    want = []
    for i in range(n):
        k = 0 if H.bit('empty%d' % i) else H.int('n%d' % i, 100, 999)
        data = H.src('a%d' % i, k)
        if H.bit('in%d' % i):
            db.store(IStream(TYPES[i], k, BytesIO(data)))
            want.append(git_id(H, TYPES[i], data, k))
            if H.bit('twice%d' % i):
                db.store(IStream(TYPES[i], k, BytesIO(data)))
    got = [bytes(s) for s in db.sha_iter()]
    H.check(len(got) == len(want), 'every stored object is enumerated once')
    H.check(db.size() == len(want), 'size() is the number of objects')
    for w in want:
        H.check(H.any(*[H.same(g, w) for g in got]), 'every stored object is enumerated')
        H.check(db.has_object(w), 'has_object is true for it')
    for s in ids(ABSENT[:2]):
        missing(H, db, s)
    H.reach('agreed')


def packs(H, sizes, version):
    """packs with ids of any content, and any id looked up"""
    from gitdb.db import PackedDB
    from gitdb.exc import BadObject
    H.mkdir('pack')
    H.put('pack/tmp_pack_x', b'')
    H.put('pack/pack-z.idx', b'')
    want = []
    for p, n in enumerate(sizes):
        shas = lib.sorted_shas(H, n, 's%d.' % p)
        want.extend(shas)
        H.put('pack/pack-%d.pack' % p, b'PACK' + lib.u32(2) + lib.u32(n) + b'\0' * 20)
        H.put('pack/pack-%d.idx' % p, lib.index_v2(H, shas, [0] * n, [12] * n) if version == 2 else lib.index_v1(H, shas, [12] * n))
    db = PackedDB(H.root + '/pack')
    got = list(db.sha_iter())
    H.check(len(got) == len(want), 'as many ids are enumerated as the packs list')
    H.check(db.size() == len(want), 'size() is the number of ids enumerated')
    for w in want:
        H.check(H.any(*[g == w for g in got]), 'every id listed is enumerated')
    q = H.cells('q', 20)
    there = H.any(*[q == w for w in want])
    r = db.has_object(q)
    H.check(r == there if isinstance(r, bool) else r == there, 'has_object is true exactly for the ids enumerated')
    if not r:
        for f in (db.info, db.stream):
            res, exc = H.catch(f, q)
            H.check(isinstance(exc, BadObject), 'looking up an absent id reports a missing object')
        H.reach('absent')
    else:
        H.reach('present')


def git(H, n):
    from gitdb.db import GitDB
    fam = ids(HEX[:n])
    H.mkdir('git/pack')
    noise(H, 'git', ['tmp', 'info', 'quarantine', 'dirs'])
    want = []
    lo = [i for i in range(n) if H.bit('loose%d' % i)]
    pk = [i for i in range(n) if H.bit('pack%d' % i)]
    for i in lo:
        put_loose(H, 'git', i % 3, fam[i])
    if pk:
        put_pack(H, 'git/pack/pack-1', [i for i in pk], fam)
    db = GitDB(H.root + '/git')
    want = [fam[i] for i in lo] + [fam[i] for i in pk]
    agree(H, db, want, [s for s in fam if s not in want] + ids(ABSENT))
    H.reach('agreed')


def cases(tier):
    big = tier != 'quick'
    out = []

    def add(nm, fn, bounds, **p):
        out.append(dict(name=nm, fn=fn, params=p, bounds=bounds, max_steps=30000, mode='bv' if fn is packs else 'int'))
    ks = list(NOISE)
    add('loose-noise', loose, 'every subset of 2 ids and of 7 kinds of foreign files and directories', n=2, kinds=ks, root='objects', slash=False)
    add('loose-slash', loose, 'root with a trailing slash', n=2, kinds=ks[2:], root='objects', slash=True)
    add('loose-4', loose, 'every subset of 4 ids', n=4, kinds=['tmp'], root='objects', slash=False)
    add('loose-short', loose, 'a root directory with a name of two letters', n=2, kinds=['tmp', 'deep'], root='db', slash=False)
    add('stored-loose', stored, 'up to 3 objects stored by the library, once or twice', root='objects', n=3 if big else 2)
    add('stored-mem', stored, 'up to 3 objects stored by the library, once or twice', root=None, n=3)
    for sizes in ((0,), (1,), (2,), (1, 1), (2, 1)) + (((3, 1), (2, 2), (1, 1, 1)) if big else ()):
        for v in (1, 2) if len(sizes) == 1 or big else (2,):
            add('packs-%s-v%d' % ('-'.join(map(str, sizes)), v), packs, 'packs of %s ids of any content, any id asked for' % (sizes,), sizes=sizes, version=v)
    add('git', git, 'every placement of 3 ids, foreign files', n=3)
    return out
