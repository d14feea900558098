"""C39: a pack or an index that was cut is found out."""
import zlib

from harness import lib
from harness.c03 import header, LIM, body

ASSUMPTIONS = ['the file is the beginning of a valid one (or a valid one whose header announces another number of objects), ending at any byte',
               'version 1 indexes have no version number; the version number of packs is not checked',
               'the ids of a file belong to a fixed family of which some share their first bytes',
               'the index has no 64 bit offsets',
               'a walk that starts in the middle of a pack can not tell that the file ends 20 bytes behind the start of an entry',
               'the checksum accessors hand out the last bytes of whatever file there is; they are left out']

# two share their first byte, two their first three, one comes last in the table
IDS = [b'\0' * 19 + b'\1', bytes([0x41] * 20), bytes([0x41] * 3 + [0x42] * 17), bytes([0x41] * 3 + [0x43] * 17), b'\xff' * 20]
ABSENT = bytes([0x41] * 2 + [0x50] * 18)
CONTENT = [b'', b'the first', b'another one', b'x' * 40, b'the last']


def pack(H, n):
    data, offs = b'PACK' + lib.u32(2) + lib.u32(n), []
    for i in range(n):
        offs.append(len(data))
        data = data + lib.entry_header(3, len(CONTENT[i])) + H.zstream('z%d' % i, [('stored', CONTENT[i])])
    return data + b'T' * 20, offs


def lost(H, exc, what):
    """an error is fine, the claim that the object is not there is not"""
    from gitdb.exc import BadObject, AmbiguousObjectName
    if isinstance(exc, (BadObject, AmbiguousObjectName)):
        H.fail(what + ': an object of the pack is reported missing or ambiguous')
    H.reach('refused')


def ask(H, n, has, info, stream, part, count, ids, label):
    from gitdb.exc import BadObject
    for i in range(n):
        r, exc = H.catch(has, IDS[i])
        if exc is None:
            H.check(r is True, label + 'an object of the pack is there')
        else:
            lost(H, exc, label)
        r, exc = H.catch(info, IDS[i])
        if exc is None:
            H.check(r.size == len(CONTENT[i]) and r.type == b'blob' and r.binsha == IDS[i], label + 'info is right')
        else:
            lost(H, exc, label)
        r, exc = H.catch(lambda: stream(IDS[i]).read())
        if exc is None:
            H.eq(r, CONTENT[i], label + 'contents are right')
            H.reach('served')
        else:
            lost(H, exc, label)
        r, exc = H.catch(part, IDS[i])
        if exc is None:
            H.check(r == IDS[i], label + 'abbreviations are right')
        else:
            lost(H, exc, label)
    r, exc = H.catch(has, ABSENT)
    if exc is None:
        H.check(r is False, label + 'an object that is not in the pack is not there')
    r, exc = H.catch(part, ABSENT)
    H.check(exc is not None or r is None, label + 'an object that is not in the pack is not found')
    r, exc = H.catch(count)
    if exc is None:
        H.check(r == n, label + 'number of objects')
    r, exc = H.catch(ids)
    if exc is None:
        H.check(r == IDS[:n], label + 'enumeration')
    else:
        lost(H, exc, label)


def indexcut(H, version, n, via, part):
    """an index file cut off at any byte next to its pack"""
    from gitdb.db import PackedDB
    from gitdb.pack import PackEntity
    data, offs = pack(H, n)
    H.put('pack-1.pack', data)
    if version == 1:
        index = lib.index_v1(H, IDS[:n], offs)
    else:
        index = lib.index_v2(H, IDS[:n], [0] * n, offs)
    # in the head (signature and fan-out table), or behind it
    head = 1024 if version == 1 else 1032
    cut = H.int('cut', *((1, head - 1) if part == 'head' else (head, len(index) - 1)))
    H.put('pack-1.idx', H.known('index', index)[:cut])
    if via == 'db':
        db, exc = H.catch(PackedDB, H.root)
        if exc is not None:
            H.reach('refused')
            return
        hexlen = 40
        for r in range(2):
            ask(H, n, db.has_object, db.info, db.stream, lambda s: db.partial_to_complete_sha(s[:20], hexlen), db.size,
                lambda: list(db.sha_iter()), 'database: ')
            if not r and H.bit('refresh'):
                H.catch(db.update_cache, True)
    else:
        e = PackEntity(H.root + '/pack-1.pack')
        x = e.index()

        def has(s):
            return x.sha_to_index(s) is not None

        def abbrev(s):
            i = x.partial_sha_to_index(s, 40)
            return None if i is None else x.sha(i)
        for r in range(2):
            ask(H, n, has, e.info, e.stream, abbrev, x.size, lambda: [x.sha(i) for i in range(x.size())], 'entity: ')
            for f in (e.info_iter, e.stream_iter):
                r, exc = H.catch(lambda: [o.binsha for o in f()])
                if exc is None:
                    H.check(r == IDS[:n], 'iteration gives every object of the pack')
                else:
                    lost(H, exc, 'iteration')
            r, exc = H.catch(lambda: sorted(x.offsets()))
            if exc is None:
                H.check(r == sorted(offs), 'offsets')


def walkcut(H, shapes, maxlen, count, start):
    """walking a pack file cut off at any byte, or whose header announces another number of objects"""
    from gitdb.pack import PackFile
    n = len(shapes)
    announced = n
    if count:
        announced = H.int('announced', 0, lib.U32)
        H.assume(announced != n)
    data = b'PACK' + lib.u32(2) + lib.u32(announced)
    want = []
    for i, shape in enumerate(shapes):
        parts, obj = body(H, i, shape, maxlen)
        size = len(obj)
        nb = 1
        while size >= LIM[nb - 1]:
            nb += 1
        want.append((len(data), size, obj))
        data = data + header(3, size, nb) + H.zstream('z%d' % i, parts)
    data = data + H.src('trailer', 20)
    if not count:
        cut = H.int('cut', 1, 1 << 20)
        H.assume(cut < len(data))
        if start:
            for o, size, obj in want:
                H.assume(cut != o + 20)
        data = data[:cut]
    pf, exc = H.catch(PackFile, H.put('pack-1.pack', data))
    it, exc = H.catch(lambda: iter(pf.stream_iter(want[start][0]) if start else pf.stream_iter()))
    i = start
    while exc is None:
        st, exc = H.catch(lambda: next(it, None))
        if exc is not None:
            H.reach('refused')
            break
        H.check(st is not None, 'a walk of a pack that is not complete does not end as if it was')
        H.check(i < n, 'no more entries than there are')
        H.check(st.pack_offset == want[i][0] and st.size == want[i][1], 'offset and size of the entry')
        got, e2 = H.catch(st.read)
        if e2 is None:
            H.eq(got, want[i][2], 'data of the entry')
            H.reach('entry')
        i += 1


def crccut(H, n, maxlen):
    """verification by checksum of a pack cut off at any byte"""
    from gitdb.pack import PackEntity
    data = b'PACK' + lib.u32(2) + lib.u32(n)
    offs, ends, crcs, objs = [], [], [], []
    for i in range(n):
        parts, obj = body(H, i, 's', maxlen)
        size = len(obj)
        nb = 1
        while size >= LIM[nb - 1]:
            nb += 1
        e = header(3, size, nb) + H.zstream('z%d' % i, parts)
        offs.append(len(data))
        data = data + e
        ends.append(len(data))
        crcs.append(zlib.crc32(e))
        objs.append(obj)
    data = data + H.src('trailer', 20)
    cut = H.int('cut', 1, 1 << 20)
    H.assume(cut < len(data))
    H.put('pack-1.pack', data[:cut])
    H.put('pack-1.idx', lib.index_v2(H, IDS[:n], crcs, offs))
    i = H.pick('which', list(range(n)))
    e = PackEntity(H.root + '/pack-1.pack')
    r, exc = H.catch(e.is_valid_stream, IDS[i], use_crc=True)
    if exc is None and r:
        H.reach('valid')
        H.check(cut >= ends[i], 'an object of which a part is missing is not reported valid')
    else:
        H.reach('invalid')


def alien(H, what):
    """a file that is no pack, or an index of an unknown version, asked again and again"""
    from gitdb.db import PackedDB
    from gitdb.pack import PackEntity, PackFile, PackIndexFile
    n = 2
    data, offs = pack(H, n)
    index = lib.index_v2(H, IDS[:n], [0] * n, offs)
    if what == 'pack':
        sig = H.cells('sig', 4)
        H.assume(H.no(H.all(*[sig[i] == b'PACK'[i] for i in range(4)])))
        data = sig + data[4:]
    else:
        v = H.cells('version', 4)
        H.assume(H.no(H.all(v[0] == 0, v[1] == 0, v[2] == 0, v[3] == 2)))
        index = index[:4] + v + index[8:]
    H.put('pack-1.pack', data)
    H.put('pack-1.idx', index)
    via = H.pick('via', ['entity', 'db', 'file'])
    db = {'entity': PackEntity, 'db': lambda p: PackedDB(H.root), 'file': PackFile if what == 'pack' else PackIndexFile}[via](
        H.root + ('/pack-1.idx' if what == 'index' and via == 'file' else '/pack-1.pack'))
    if via == 'file':
        acts = {'walk': lambda: list(db.stream_iter()), 'info': lambda: db.info(12), 'stream': lambda: db.stream(12), 'size': lambda: db.size()} \
            if what == 'pack' else {'lookup': lambda: db.sha_to_index(IDS[0]), 'partial': lambda: db.partial_sha_to_index(IDS[0][:4], 8),
                                    'offset': lambda: db.offset(0), 'offsets': lambda: list(db.offsets()), 'size': lambda: db.size()}
    else:
        acts = {'info': lambda: db.info(IDS[1]), 'stream': lambda: db.stream(IDS[1]).read()}
        if via == 'db':
            acts.update({'has': lambda: db.has_object(IDS[1]), 'ids': lambda: list(db.sha_iter()), 'size': lambda: db.size()})
        else:
            acts.update({'infos': lambda: list(db.info_iter()), 'verify': lambda: db.is_valid_stream(IDS[1], True)})
    names = sorted(acts)
    for k in range(2):
        r, exc = H.catch(acts[H.pick('ask%d' % k, names)])
        if exc is None:
            H.fail('a file that is no pack or index is used as one')
    H.reach('refused')


def cases(tier):
    big = tier != 'quick'
    out = []

    def add(nm, fn, bounds, w=1, **p):
        out.append(dict(name=nm, fn=fn, params=p, bounds=bounds, max_steps=60000, weight=w))
    for via in ('db', 'entity'):
        for n in ((2, 5) if not big else (1, 2, 3, 5)):
            for v in (1, 2):
                for part in ('tables', 'head'):
                    add('index%d-%d-%s-%s' % (v, n, via, part), indexcut, 'version %d, %d objects, cut at any byte of the %s' % (v, n, part),
                        version=v, n=n, via=via, part=part)
    for shapes in (('s',), ('s', 's'), ('s', 'e', 's'), ('T', 's')) + ((('s', 's', 's'), ('s', 'T', 'sT')) if big else ()):
        nm = '-'.join(shapes)
        add('walk-' + nm, walkcut, 'fragments %s of up to 40 bytes each, cut at any byte' % nm, shapes=shapes, maxlen=40, count=False, start=0)
        add('count-' + nm, walkcut, 'fragments %s of up to 60000 bytes each, any wrong count' % nm, shapes=shapes, maxlen=60000, count=True, start=0)
        if len(shapes) > 1:
            add('from-' + nm, walkcut, 'fragments %s of up to 40 bytes each, walked from the second on, cut at any byte' % nm, shapes=shapes, maxlen=40, count=False, start=1)
    for what in ('pack', 'index'):
        add('alien-' + what, alien, '%s, any two queries' % ('any other signature than the one of a pack' if what == 'pack' else 'an index of any other version than 2'), what=what)
    for n in (1, 2):
        add('crc-%d' % n, crccut, '%d objects of up to 40 bytes, cut at any byte' % n, n=n, maxlen=40)
    return out
