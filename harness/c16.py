"""C16: a failed or interrupted store never leaves a wrong object behind."""
import hashlib
import re

from harness.c01 import TYPES, Feed, git_id, verify

ASSUMPTIONS = ['one file system call fails (with an error, or a write that is short by any amount), up to six in a row do, or the process dies before one '
               'call, possibly after part of a write; which one is symbolic',
               'nothing is claimed about the temporary file when the call that removes it fails',
               'the file system keeps the order of completed calls; the compressor is modelled as emitting stored blocks on flush']

OTHER = b'tree', b'other contents'


def setup(H, dirs=True):
    """a database with one object in it"""
    from gitdb.db import LooseObjectDB
    H.mkdir('objects')
    t, c = OTHER
    data = t + b' %d\0' % len(c) + c
    x = hashlib.sha1(data).hexdigest()
    name = x[:2] + '/' + x[2:]
    H.put('objects/' + name, H.zstream('oz', [('stored', data)]))
    return LooseObjectDB(H.root + '/objects'), name, data


def names(H, sha):
    x = sha.hex()
    return x[:2] + '/' + x[2:]


def istream(H, form, typ, data, n, sha):
    from gitdb import IStream
    from io import BytesIO
    if form == 'sha':       # in object format already
        hdr = typ + b' ' + (b'%d' % n) + b'\0'
        z = H.zstream('given', [('stored', hdr + data)])
        return IStream(typ, n, BytesIO(z), sha)
    if form == 'feed':
        return IStream(typ, n, Feed(data, n))
    return IStream(typ, n, BytesIO(data))


def begin(H, form, maxn, present):
    from gitdb.db import LooseObjectDB
    n = H.int('n', 0, maxn)
    data = H.src('a', n)
    chunk = H.int('chunk', 1, maxn)
    H.assume(n <= 2 * chunk)
    LooseObjectDB.stream_chunk_size = chunk
    typ = b'blob'
    sha = git_id(H, typ, data, n)
    name = names(H, sha)
    full = typ + b' ' + (b'%d' % n) + b'\0' + data
    db, oname, odata = setup(H)
    if present:
        H.put('objects/' + name, H.zstream('pz', [('stored', full)]))
    return db, typ, data, n, sha, name, full, oname, odata


def whole(H, name, full, label):
    back = H.zdecode(H.get('objects/' + name))
    H.check(back is not None, label + 'it is one complete zlib stream')
    H.eq(back, full, label + 'it is the complete object')


def failing(H, form, maxn, present, short, maxop, span=None):
    db, typ, data, n, sha, name, full, oname, odata = begin(H, form, maxn, present)
    at = H.int('at', 1, maxop)
    H.fault(at, H.int('short', 1, 1 << 20) if short else None, H.int('span', 2, span) if span else None)
    ist = istream(H, form, typ, data, n, sha)
    res, exc = H.catch(db.store, ist)
    failed = H.fault_names()
    H.nofault()
    files = H.files('objects')
    if not failed:
        if exc is not None:
            raise exc
        H.reach('no fault')
    # unless removing it is what failed
    clean = 'remove' not in failed and 'unlink' not in failed
    H.check(oname in files, 'other objects stay')
    whole(H, oname, odata, 'another object: ')
    if exc is None:
        H.eq(res.binsha, sha, 'a store that succeeds returns the id')
        H.check(name in files, 'after a store that succeeds the object is there')
        if clean:
            H.check(len(files) == 2, 'after a store that succeeds nothing else is there')
        whole(H, name, full, 'after a store that succeeds: ')
        if failed:
            H.reach('survived')
    else:
        H.check(isinstance(exc, OSError), 'a failing call is reported as such')
        H.reach('failed')
        if name in files:
            whole(H, name, full, 'after a failed store: ')
        else:
            H.check(not present, 'an existing object stays')
        if clean:
            H.check(len(files) == 1 + (name in files), 'a failed store leaves no temporary file')
        for f in files:
            H.check(f in (name, oname) or not re.match('^[0-9a-f]{2}/[0-9a-f]{38}$', f), 'no other object name appears')
    # the database works on
    rest = len(files) - 1 - (name in files)
    ist = istream(H, 'feed', typ, data, n, sha)
    res, exc = H.catch(db.store, ist)
    if exc is not None:
        raise exc
    files = H.files('objects')
    H.check(len(files) == 2 + rest and name in files, 'the next store works')
    whole(H, name, full, 'the next store: ')


def dying(H, form, maxn, present, maxop):
    from gitdb.db import LooseObjectDB
    db, typ, data, n, sha, name, full, oname, odata = begin(H, form, maxn, present)
    at = H.int('at', 1, maxop)
    cut = H.int('cut', 0, 1 << 20)
    ist = istream(H, form, typ, data, n, sha)
    how = H.crashable(lambda: db.store(ist), at, cut)
    H.check(how != 'raised', 'a store does not fail by itself')
    files = H.files('objects')
    H.check(oname in files, 'other objects stay')
    whole(H, oname, odata, 'another object: ')
    if how == 'done':
        H.check(name in files, 'the object is there')
    else:
        H.reach('crashed')
    if present:
        H.check(name in files, 'an existing object stays')
    for f in files:
        if f == name:
            whole(H, name, full, 'after the crash: ')
            H.reach('complete')
        elif f != oname:
            H.check(not re.match('^[0-9a-f]{2}/[0-9a-f]{38}$', f), 'no other object name appears')
    # another process carries on
    db = LooseObjectDB(H.root + '/objects')
    H.check(db.size() == (2 if name in files else 1), 'left-over temporary files are not taken for objects')
    res, exc = H.catch(db.store, istream(H, 'feed', typ, data, n, sha))
    if exc is not None:
        raise exc
    whole(H, name, full, 'stored again: ')


class Broken(Exception):
    pass


def source(H, maxn, present):
    """the stream that provides the data fails"""
    db, typ, data, n, sha, name, full, oname, odata = begin(H, 'feed', maxn, present)
    left = H.int('reads', 0, 2)
    feed = Feed(data, n)
    count = [0]

    class Src:
        def read(self, k):
            if left == count[0]:
                raise Broken()
            count[0] += 1
            return feed.read(k)
    from gitdb import IStream
    res, exc = H.catch(db.store, IStream(typ, n, Src()))
    files = H.files('objects')
    H.check(oname in files, 'other objects stay')
    if isinstance(exc, Broken):
        H.reach('failed')
        H.check(len(files) == (2 if present else 1), 'a failed store leaves nothing')
        H.check((name in files) == present, 'a failed store leaves nothing')
    elif exc is not None:
        raise exc
    else:
        H.check(len(files) == 2 and name in files, 'stored')
    if name in files:
        whole(H, name, full, 'object: ')


def cases(tier):
    big = tier != 'quick'
    out = []
    m = 1 << (20 if big else 12)

    def add(nm, fn, bounds, **p):
        out.append(dict(name=nm, fn=fn, params=p, bounds=bounds, max_steps=20000))
    for form in ('bytesio', 'feed', 'sha'):
        for present in (False, True):
            s = '%s%s' % (form, '-present' if present else '')
            for short in (False, True):
                if form == 'bytesio' and (short or present) and not big:
                    continue
                add('fail-%s%s' % (s, '-short' if short else ''), failing, 'objects of up to %d bytes in up to 3 chunks; every single failing call%s' % (m, ', every short write' if short else ''),
                    form=form, maxn=m, present=present, short=short, maxop=16)
                if form != 'bytesio':
                    add('burst-%s%s' % (s, '-short' if short else ''), failing, 'objects of up to %d bytes in up to 3 chunks; up to 6 failing calls%s in a row' % (m, ' or short writes' if short else ''),
                        form=form, maxn=m, present=present, short=short, maxop=16, span=6)
            if form != 'bytesio':
                add('die-' + s, dying, 'objects of up to %d bytes in up to 3 chunks; the process dies before any call or within any write' % m, form=form, maxn=m, present=present, maxop=16)
    for present in (False, True):
        add('source%s' % ('-present' if present else ''), source, 'the source stream fails at any read', maxn=m, present=present)
    return out
