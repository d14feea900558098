"""C22: copying from a memory database transfers exactly the missing objects."""
from harness.c01 import TYPES, git_id, verify, make_db, set_chunk
from harness.c16 import names
from harness.c03 import header
from harness import lib

ASSUMPTIONS = ['objects of different types with any contents; which of them the target has, and the list of ids (repetitions and '
               'ids the memory database lacks included), are symbolic',
               'the compressor is modelled as emitting stored blocks on flush; in the -big cases with a block header for every '
               '16383 bytes, as zlib does for data that does not compress']


def copy(H, target, objs, maxn, length, alien, chunk, fixed=False):
    from gitdb import IStream
    from gitdb.db import MemoryDB
    from gitdb.exc import BadObject
    from io import BytesIO
    mem = MemoryDB()
    dst = make_db(H, target)
    os_ = []
    for i in range(objs):
        n = H.int('n%d' % i, 100 if fixed else 0, maxn)
        data = H.src('a%d' % i, n)
        t = TYPES[i]
        ist = mem.store(IStream(t, n, BytesIO(data)))
        sha = git_id(H, t, data, n)
        H.eq(ist.binsha, sha, 'id')
        os_.append((sha, t, data, n))
    have = [H.bit('have%d' % i) for i in range(objs)]
    before = {}
    for i, (sha, t, data, n) in enumerate(os_):
        if have[i]:
            dst.store(IStream(t, n, BytesIO(data)))
            before[i] = H.get('objects/' + names(H, sha))
    if chunk:
        set_chunk(H, dst, target, H.int('chunk', 20, chunk))
    lst = [H.pick('l%d' % k, list(range(objs + (1 if alien else 0)))) for k in range(length)]
    absent = b'\x77' * 20
    ask = [os_[i][0] if i < objs else absent for i in lst]
    res, exc = H.catch(mem.stream_copy, iter(ask), dst)
    upto = lst
    if objs in lst:
        upto = lst[:lst.index(objs)]
        H.check(isinstance(exc, BadObject), 'an id the memory database lacks is reported as missing')
        H.reach('alien')
    elif exc is not None:
        raise exc
    else:
        want = len({i for i in lst if not have[i]})
        H.check(res == want, 'the number of objects copied is returned')
        H.reach('copied')
    there = [i for i in range(objs) if have[i] or i in upto]
    files = H.files('objects')
    H.check(len(files) == len(there), 'exactly the listed objects are stored')
    for i in range(objs):
        sha, t, data, n = os_[i]
        nm = names(H, sha)
        H.check((nm in files) == (i in there), 'exactly the listed objects are stored')
        if i in there:
            verify(H, dst, sha, t, data, n, 'in the target: ')
            if have[i]:
                H.eq(H.get('objects/' + nm), before[i], 'an object the target had is untouched')
            else:
                H.eq(H.zdecode(H.get('objects/' + nm)), t + b' ' + (b'%d' % n) + b'\0' + data, 'the copy is in the git format')
        verify(H, mem, sha, t, data, n, 'in the memory database: ')


def spread(H, length):
    """a full git database that has the objects as loose objects, in a pack, in an alternate or not at all"""
    from gitdb import IStream
    from gitdb.db import MemoryDB, GitDB
    from io import BytesIO
    mem = MemoryDB()
    os_ = []
    for i in range(2):
        data = b'content %d' % i
        t = TYPES[i]
        sha = mem.store(IStream(t, len(data), BytesIO(data))).binsha
        H.eq(sha, git_id(H, t, data, len(data)), 'id')
        os_.append((sha, t, data))
    at = [H.pick('at%d' % i, ['nowhere', 'loose', 'pack', 'alternate', 'altpack']) for i in range(2)]
    H.mkdir('objects')
    for rel, where in (('objects', 'loose'), ('alt', 'alternate')):
        for i, (sha, t, data) in enumerate(os_):
            if at[i] == where:
                H.put(rel + '/' + names(H, sha), H.zstream('lz%d' % i, [('stored', t + b' %d\0' % len(data) + data)]))
    for rel, where in (('objects/pack/pack-0', 'pack'), ('alt/pack/pack-1', 'altpack')):
        which = sorted([i for i in range(2) if at[i] == where], key=lambda i: os_[i][0])
        if which:
            pack, offs = b'PACK' + lib.u32(2) + lib.u32(len(which)), []
            for i in which:
                offs.append(len(pack))
                pack = pack + header(CODE[os_[i][1]], len(os_[i][2]), 1) + \
                    H.zstream('pz%d' % i, [('stored', os_[i][2])])
            H.put(rel + '.pack', pack + b'T' * 20)
            H.put(rel + '.idx', lib.index_v2(H, [os_[i][0] for i in which], [0] * len(which), offs))
    if any(a.startswith('alt') for a in at):
        H.put('objects/info/alternates', (H.root + '/alt\n').encode())
    dst = GitDB(H.root + '/objects')
    before, altbefore = sorted(H.files('objects')), sorted(H.files('alt')) if H.exists('alt') else []
    lst = [H.pick('l%d' % k, [0, 1]) for k in range(length)]
    res = mem.stream_copy(iter([os_[i][0] for i in lst]), dst)
    new = [i for i in range(2) if i in lst and at[i] == 'nowhere']
    H.check(res == len(new), 'the number of objects copied is returned')
    H.check(sorted(H.files('objects')) == sorted(before + [names(H, os_[i][0]) for i in new]), 'exactly the missing objects are stored')
    H.check((sorted(H.files('alt')) if H.exists('alt') else []) == altbefore, 'exactly the missing objects are stored')
    for i, (sha, t, data) in enumerate(os_):
        if i in lst or at[i] != 'nowhere':
            verify(H, dst, sha, t, data, len(data), 'in the target: ')
        else:
            H.check(not dst.has_object(sha), 'what was not listed is not copied')
        verify(H, mem, sha, t, data, len(data), 'in the memory database: ')
    H.reach('at %s' % at[0])


CODE = {b'commit': 1, b'tree': 2, b'blob': 3, b'tag': 4}


def cases(tier):
    big = tier != 'quick'
    out = []

    def add(nm, fn, bounds, comp='stored', **p):
        out.append(dict(name=nm, fn=fn, params=p, bounds=bounds, max_steps=30000, compressor=comp))
    for target in ('loose', 'git'):
        add(target + '-1', copy, 'one object of up to 20000 bytes, one id', target=target, objs=1, maxn=20000, length=1, alien=True, chunk=0)
        add(target + '-2', copy, 'two objects of 100 to 999 bytes, two ids', target=target, objs=2, maxn=999, length=2, alien=True, chunk=0, fixed=True)
        add(target + '-3', copy, 'two objects, three ids', target=target, objs=2, maxn=999, length=3, alien=False, chunk=0, fixed=True)
        add(target + '-big', copy, 'one object of up to 2000000 bytes that grows when compressed', 'blocks', target=target, objs=1,
            maxn=2000000, length=1, alien=False, chunk=0)
        if big:
            add(target + '-4', copy, 'three objects, three ids', target=target, objs=3, maxn=999, length=3, alien=True, chunk=0, fixed=True)
        add(target + '-chunk', copy, 'one object copied in up to 6 chunks', target=target, objs=1, maxn=120, length=1, alien=False, chunk=200, fixed=True)
        add(target + '-0', copy, 'no ids', target=target, objs=1, maxn=999, length=0, alien=False, chunk=0, fixed=True)
    for k in (1, 2, 3) if big else (1, 2):
        add('spread-%d' % k, spread, 'two given objects, each nowhere, loose, packed, in an alternate or in a pack of the alternate; '
            '%d ids' % k, length=k)
    return out
