"""C30: streams handed out by a database are independent of each other and of later operations."""
import gc

from harness import lib
from harness.c07 import sha, delta, entry, ofs_enc

ASSUMPTIONS = ['two streams of the same or of different objects; the reads alternate in every order, sizes are symbolic',
               'an in-memory database hands out one shared reader per object (rewound for the next one to read) and is not covered',
               'object data is held in stored zlib blocks']


def blob(H, i, maxn):
    return H.src('a%d' % i, H.int('n%d' % i, 16, maxn))


ZEROS = bytes(20000)


def put_loose(H, i, data, mid=b''):
    """mid: part of the data that is compressed well; the object is zeros + the rest then"""
    x = sha(i).hex()
    rel = 'objects/%s/%s' % (x[:2], x[2:])
    head = b'blob ' + (b'%d' % (len(mid) + len(data))) + b'\0'
    H.put(rel, H.zstream('z%d' % i, [('stored', head), ('raw', mid), ('stored', data)] if mid else [('stored', head + data)]))
    return rel


def put_pack(H, objs, deltas=''):
    """objs: [(number, data)]; with deltas the last object is a delta to the first"""
    data = b'PACK' + lib.u32(2) + lib.u32(len(objs))
    offs = []
    for j, (i, body) in enumerate(objs):
        offs.append(len(data))
        t, mid = 3, b''
        if deltas and j == len(objs) - 1:
            t, mid = (6, ofs_enc(H, offs[j] - offs[0])) if deltas == 'o' else (7, sha(objs[0][0]))
        data = data + entry(H, t, body, mid, 'zp%d' % i)
    H.put('objects/pack/pack-1.pack', data + b'T' * 20)
    nums = [i for i, _ in objs]
    order = sorted(range(len(objs)), key=lambda j: sha(nums[j]))
    H.put('objects/pack/pack-1.idx', lib.index_v2(H, [sha(nums[j]) for j in order], [0] * len(objs), [offs[j] for j in order]))


def two(H, kind, maxn, steps, same=False, gone=False, other=False, large=False, drop=False):
    from gitdb.db import LooseObjectDB, PackedDB, GitDB
    H.mkdir('objects')
    a = blob(H, 0, maxn)
    paths = []
    if kind in ('delta-o', 'delta-r'):
        d, b = delta(H, 0, a, 'ci', (24, 100))
        put_pack(H, [(0, a), (1, d)], kind[-1])
    elif kind == 'loose':
        b = blob(H, 1, maxn)
        mid = ZEROS if large else b''
        paths = [put_loose(H, 0, a, mid), put_loose(H, 1, b, mid)]
        if large:
            a, b = mid + a, mid + b
    elif kind == 'mixed':
        b = blob(H, 1, maxn)
        paths = [put_loose(H, 0, a)]
        put_pack(H, [(1, b)])
    else:
        b = blob(H, 1, maxn)
        put_pack(H, [(0, a), (1, b)])
    if kind != 'loose':
        paths = paths + ['objects/pack/pack-1.idx', 'objects/pack/pack-1.pack']
    if kind == 'loose':
        db = LooseObjectDB(H.root + '/objects')
    elif kind == 'mixed':
        db = GitDB(H.root + '/objects')
    else:
        db = PackedDB(H.root + '/objects/pack')
    which = [1, 1] if same else [0, 1]
    objs = [(a, b)[w] for w in which]
    sts = [db.stream(sha(w)) for w in which]
    pos = [0, 0]
    if gone:
        # the files disappear and the database notices
        for p in paths:
            H.unlink(p)
        if hasattr(db, 'update_cache'):
            db.update_cache(True)
        if kind != 'mixed':
            H.check(not db.has_object(sha(0)), 'the object is gone')
    left = (0, 1)
    for i in range(steps):
        s = H.pick('which%d' % i, [0, 1])
        if drop and i == steps - 1:
            # the other stream is not needed any more
            if kind[0] != 'd' and H.bit('close'):
                sts[1 - s].stream.close()
            sts[1 - s] = None
            gc.collect()
            left = (s,)
        n = H.pick('r%d' % i, [1, 7000, 9000, 19990, 30000]) if large else H.int('r%d' % i, 1, 1 << 20)
        if other and i == steps - 1:
            # something else is done with the database in between
            k = H.pick('between', [0, 1])
            H.check(db.info(sha(k)).size == len((a, b)[k]), 'size')
            x = db.stream(sha(k))
            H.eq(x.read(), (a, b)[k], 'a stream opened in between')
        want = len(objs[s]) - pos[s]
        if n < want:
            want = n
        H.eq(sts[s].read(n), objs[s][pos[s]:pos[s] + want], 'a read continues where the last one of this stream ended')
        pos[s] = pos[s] + want
    for s in left:
        H.eq(sts[s].read(), objs[s][pos[s]:], 'the rest of each stream')
    for s in left:
        H.eq(bytes(sts[s].binsha), sha(which[s]), 'id')
        H.check(sts[s].size == len(objs[s]), 'size')
        H.eq(sts[s].type, b'blob', 'type')
    H.reach('read')


def cases(tier):
    big = tier != 'quick'
    out = []

    def add(nm, bounds, **p):
        out.append(dict(name=nm, fn=two, params=p, bounds=bounds, max_steps=10000))
    S = 4 if big else 3
    for k in ('loose', 'pack', 'mixed', 'delta-o', 'delta-r'):
        n = 1000 if k[0] != 'd' else 400
        t = S if k == 'loose' else S - 1
        add(k, 'two objects of 16 to %d bytes, %d reads in every order' % (n, t), kind=k, maxn=n, steps=t)
        add(k + '-same', 'two streams of one object', kind=k, maxn=n, steps=t, same=True)
        add(k + '-gone', 'files removed after the streams were opened', kind=k, maxn=n, steps=2, gone=True)
        add(k + '-other', 'other queries between the reads', kind=k, maxn=n, steps=2, other=True)
    for same in (False, True):
        s = '-same' if same else ''
        add('large' + s, 'two objects of 20016 to 21000 bytes', kind='loose', maxn=1000, steps=2, same=same, large=True)
        add('large-drop' + s, 'two objects of 20016 to 21000 bytes, one stream is dropped', kind='loose', maxn=1000, steps=2, same=same, large=True, drop=True)
        for k in ('loose', 'pack', 'mixed', 'delta-o', 'delta-r'):
            if k == 'loose' or big or same:
                n = 1000 if k[0] != 'd' else 400
                add('%s-drop%s' % (k, s), 'one of two streams is dropped', kind=k, maxn=n, steps=2, same=same, drop=True)
    return out
