"""C23: creating a pack on disk is all-or-nothing under the pack names."""
import gc
import hashlib
import re
from harness import lib
from harness.c01 import Feed

ASSUMPTIONS = ['one file system call fails (with an error, or a write that is short by any amount), up to six in a row do, or the process dies before one '
               'call, possibly after part of a write; which one is symbolic',
               'nothing is claimed about temporary files when a call that removes one fails',
               'the file system keeps the order of completed calls; the compressor is modelled as emitting stored blocks on flush']

OLD = b'an object of the old pack'
OLDID = b'\xdd' * 20
OLDNAME = 'pack-' + '5' * 40


def sha(i):
    return bytes([(97 * i + 200) % 251] * 3 + [i] * 17)


def objects(H, k):
    from gitdb import OStream
    objs = []
    for i in range(k):
        n = H.int('n%d' % i, 16, 2000)
        data = H.src('a%d' % i, n)
        objs.append((sha(i), b'blob', n, data, OStream(sha(i), b'blob', n, Feed(data, n))))
    return objs


def setup(H, old):
    H.mkdir('pack')
    if not old:
        return {}
    n = len(OLD)
    body = bytes([0x80 | 0x30 | n % 16, n // 16]) + H.zstream('oldz', [('stored', OLD)])
    pack = b'PACK' + lib.u32(2) + lib.u32(1) + body
    pack = pack + hashlib.sha1(pack).digest()
    H.put('pack/%s.pack' % OLDNAME, pack)
    idx = lib.index_v2(H, [OLDID], [0], [12])
    H.put('pack/%s.idx' % OLDNAME, idx)
    return {OLDNAME + '.pack': pack, OLDNAME + '.idx': idx}


def complete(H, before, objs):
    """(has pack, has index); whatever has a pack name is complete, what was there before is unchanged"""
    from gitdb.pack import PackEntity
    files = H.files('pack')
    for f, d in before.items():
        H.check(f in files, 'older packs stay')
        H.eq(H.get('pack/' + f), d, 'older packs are untouched')
    new = [f for f in files if f not in before and re.match(r'^pack-.*\.(pack|idx)$', f)]
    has = {'pack': None, 'idx': None}
    for f in new:
        m = re.match(r'^pack-([0-9a-f]{40})\.(pack|idx)$', f)
        H.check(m is not None, 'the name has the form of a pack name')
        H.check(has[m.group(2)] is None, 'one file of each kind')
        has[m.group(2)] = m.group(1)
        data = H.get('pack/' + f)
        n = len(data)
        H.check(n >= 32, 'a file under a pack name is complete')
        H.eq(data[n - 20:], hashlib.sha1(data[:n - 20]).digest(), 'a file under a pack name is complete')
        if m.group(2) == 'pack':
            H.eq(data[:12], b'PACK' + lib.u32(2) + lib.u32(len(objs)), 'the pack has all the objects')
            H.check(m.group(1) == data[n - 20:].hex(), 'the pack is named after its checksum')
        else:
            H.check(n == 1032 + 28 * len(objs) + 40, 'the index has all the objects')
            H.check(m.group(1) == data[n - 40:n - 20].hex(), 'the index is named after the checksum of the pack')
    if has['pack'] and has['idx']:
        H.check(has['pack'] == has['idx'], 'pack and index belong together')
    return has['pack'] is not None, has['idx'] is not None, len(files) - len(before) - len(new)


def contents(H, e, objs):
    H.check(e.index().size() == len(objs), 'number of objects')
    for s, t, n, data, _ in objs:
        st = e.stream(s)
        H.eq(st.type, t, 'type')
        H.eq(st.read(), data, 'contents')


def database(H, before, objs, there):
    """a database over the directory"""
    from gitdb.db import PackedDB
    db = PackedDB(H.root + '/pack')
    if before:
        H.check(db.has_object(OLDID), 'objects of older packs are served')
        H.eq(db.stream(OLDID).read(), OLD, 'objects of older packs are served')
    for s, t, n, data, _ in objs:
        H.check(db.has_object(s) == there, 'the new objects are served if and only if their pack is complete')
        if there:
            H.eq(db.stream(s).read(), data, 'new objects are served')
    H.check(not db.has_object(b'\xaa' * 20), 'nothing else is there')


def failing(H, k, old, short, maxop, span=None):
    from gitdb.pack import PackEntity
    before = setup(H, old)
    objs = objects(H, k)
    H.fault(H.int('at', 1, maxop), H.int('short', 1, 1 << 20) if short else None, H.int('span', 2, span) if span else None)
    res, exc = H.catch(PackEntity.create, [o[4] for o in objs], H.root + '/pack')
    failed = H.fault_names()
    H.nofault()
    pack, idx, rest = complete(H, before, objs)
    if exc is None:
        H.check(pack and idx, 'success: pack and index are there')
        H.check(rest == 0, 'success: no temporary files')
        contents(H, res, objs)
        H.reach('created')
    else:
        H.check(failed, 'nothing fails by itself')
        H.check(isinstance(exc, OSError), 'the failing call is reported')
        if 'remove' not in failed and 'unlink' not in failed:
            H.check(rest == 0, 'failure: no temporary files')
        H.reach('failed')
    failed = exc is not None
    res = exc = None
    if failed:
        gc.collect()
        H.check(H.fds() == 0, 'failure: descriptors are closed')
    database(H, before, objs, pack and idx)


def dying(H, k, old, maxop):
    from gitdb.pack import PackEntity
    before = setup(H, old)
    objs = objects(H, k)
    how = H.crashable(lambda: PackEntity.create([o[4] for o in objs], H.root + '/pack'), H.int('at', 1, maxop), H.int('cut', 0, 1 << 20))
    H.check(how != 'raised', 'nothing fails by itself')
    pack, idx, rest = complete(H, before, objs)
    if how == 'done':
        H.check(pack and idx, 'success: pack and index are there')
        H.check(rest == 0, 'success: no temporary files')
    else:
        H.reach('crashed')
    database(H, before, objs, pack and idx)


class Broken(Exception):
    pass


def source(H, k, old):
    """an object whose data can't be read or is not what was announced"""
    from gitdb.pack import PackEntity
    from gitdb import OStream
    before = setup(H, old)
    objs = objects(H, k)
    bad = H.pick('bad', list(range(k)))
    kind = H.pick('kind', ['raise', 'short', 'count', 'iter'])

    class Src:
        def read(self, n):
            raise Broken()
    seq = [o[4] for o in objs]
    count = None
    if kind == 'raise':
        seq[bad] = OStream(sha(bad), b'blob', 100, Src())
    elif kind == 'short':
        s, t, n, data, _ = objs[bad]
        seq[bad] = OStream(s, t, n + 1, Feed(data, n))
    elif kind == 'count':
        count = k + 1
    else:
        def gen():
            for i, o in enumerate(objs):
                if i == bad:
                    raise Broken()
                yield o[4]
        seq = gen()
    res, exc = H.catch(PackEntity.create, seq, H.root + '/pack', count)
    H.check(exc is not None, 'the error is reported')
    pack, idx, rest = complete(H, before, objs)
    H.check(not pack and not idx and rest == 0, 'nothing is left behind')
    exc = None
    gc.collect()
    H.check(H.fds() == 0, 'descriptors are closed')
    database(H, before, objs, False)
    H.reach(kind)


def cases(tier):
    big = tier != 'quick'
    out = []

    def add(nm, fn, bounds, **p):
        out.append(dict(name=nm, fn=fn, params=p, bounds=bounds, max_steps=20000))
    for k in (1, 2) + ((3,) if big else ()):
        for old in (False, True):
            s = '%d%s' % (k, '-old' if old else '')
            mo = 330 + 30 * k
            if k > 1 and not big:
                if old:
                    continue
                mo = 90     # up to the first calls that write the index
            b = '%d objects of 16 to 2000 bytes; ' % k
            add('fail-' + s, failing, b + 'every single failing call', k=k, old=old, short=False, maxop=mo)
            if not old:
                add('burst-' + s, failing, b + 'up to 6 failing calls in a row', k=k, old=old, short=False, maxop=mo, span=6)
            add('short-' + s, failing, b + 'every single short write', k=k, old=old, short=True, maxop=mo)
            add('die-' + s, dying, b + 'death before every call and within every write', k=k, old=old, maxop=mo)
            add('source-' + s, source, b + 'objects that fail to be read', k=k, old=old)
    return out
