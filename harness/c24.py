"""C24: file descriptors are released on every path."""
import gc
from harness.c01 import TYPES, verify
from harness.c16 import istream, names, setup
from harness.c01 import git_id

ASSUMPTIONS = ['one file system call fails (with an error, or a write that is short by any amount), or several in a row do; which ones is symbolic',
               'a descriptor whose close call reports an error is released, as on Linux',
               'objects that only garbage collection can release are collected before descriptors are counted']


def none_open(H, label):
    gc.collect()
    H.check(H.fds() == 0, label)


def burst(H, span):
    return H.int('span', 2, span) if span else None


def storing(H, form, maxn, present, short, maxop, span=None):
    from gitdb.db import LooseObjectDB
    n = H.int('n', 0, maxn)
    data = H.src('a', n)
    chunk = H.int('chunk', 1, maxn)
    H.assume(n <= 2 * chunk)
    LooseObjectDB.stream_chunk_size = chunk
    sha = git_id(H, b'blob', data, n)
    db, oname, odata = setup(H)
    if present:
        H.put('objects/' + names(H, sha), H.zstream('pz', [('stored', b'blob ' + (b'%d' % n) + b'\0' + data)]))
    ist = istream(H, form, b'blob', data, n, sha)
    H.fault(H.int('at', 1, maxop), H.int('short', 1, 1 << 20) if short else None, burst(H, span))
    res, exc = H.catch(db.store, ist)
    failed = exc is not None
    res = exc = None
    if not H.nofault():
        H.check(not failed, 'nothing fails by itself')
    H.reach('failed' if failed else 'stored')
    none_open(H, 'storing closes what it opened')


class Broken(Exception):
    pass


def source(H, maxn):
    """the stream that provides the data fails"""
    from gitdb import IStream
    n = H.int('n', 1, maxn)
    db, oname, odata = setup(H)

    class Src:
        def read(self, k):
            raise Broken()
    given = H.bit('given')
    ist = IStream(b'blob', n, Src(), b'\x11' * 20) if given else IStream(b'blob', n, Src())
    res, exc = H.catch(db.store, ist)
    H.check(isinstance(exc, Broken), 'the error of the source is reported')
    res = exc = None
    none_open(H, 'a failed store closes what it opened')


def stored(H, maxn, damaged=None):
    """an object in the database, possibly damaged"""
    from gitdb.db import LooseObjectDB
    n = H.int('n', 0, maxn)
    data = H.src('a', n)
    sha = b'\x12' * 20
    H.mkdir('objects')
    hdr = b'blob ' + (b'%d' % n) + b'\0'
    if damaged == 'type':
        hdr = b'blurb ' + (b'%d' % n) + b'\0'
    elif damaged == 'size':
        hdr = b'blob x\0'
    z = H.zstream('z', [('stored', hdr + data)])
    if damaged == 'empty':
        z = b''
    elif damaged == 'garbage':
        z = b'this is not a zlib stream'
    H.put('objects/' + names(H, sha), z)
    return LooseObjectDB(H.root + '/objects'), sha, data, n


def asking(H, what, maxn, maxop, damaged=None, missing=False, span=None):
    db, sha, data, n = stored(H, maxn, damaged)
    if missing:
        sha = b'\x13' * 20
    ok = None
    if maxop:
        H.fault(H.int('at', 1, maxop), span=burst(H, span))

    def work():
        if what == 'info':
            return db.info(sha).size
        if what == 'has':
            return db.has_object(sha)
        if what == 'size':
            return db.size()
        if what == 'read':
            return db.stream(sha).read()
        if what == 'part':
            st = db.stream(sha)
            return st.read(H.int('k', 1, maxn))
        if what == 'unread':
            db.stream(sha)
            return None
        if what == 'close':
            st = db.stream(sha)
            st.stream.close()
            return None
        if what == 'partial':
            return db.partial_to_complete_sha_hex('1212')
    res, exc = H.catch(work)
    failed = exc is not None
    if maxop:
        used = H.nofault()
        H.check(used or not failed, 'nothing fails by itself')
    if not failed and what == 'read':
        H.eq(res, data, 'what was read')
    res = exc = None
    H.reach('failed' if failed else 'done')
    none_open(H, 'a query closes what it opened')


def lock(H, write, stream, end, present, maxop, span=None):
    from gitdb.util import LockedFD
    import os
    H.mkdir('dir')
    if present:
        H.put('dir/file', H.src('old', H.int('nold', 0, 1 << 20)))
    data = H.src('w', H.int('n', 0, 1 << 20))
    H.fault(H.int('at', 1, maxop), span=burst(H, span))

    def work():
        lk = LockedFD(H.root + '/dir/file')
        fd = lk.open(write, stream)
        try:
            if not write:
                fd.read(5) if stream else os.read(fd, 5)
            elif stream:
                fd.write(data)
            else:
                os.write(fd, data)
        finally:
            if end == 'commit':
                lk.commit()
            elif end == 'rollback':
                lk.rollback()
    res, exc = H.catch(work)
    failed = exc is not None
    res = exc = None
    used = H.nofault()
    if present or write:
        H.check(used or not failed, 'nothing fails by itself')
    H.reach('failed' if failed else 'done')
    none_open(H, 'a lock that ended closed what it opened')


def writer(H, short, maxop, span=None):
    """the compressing writer itself"""
    import os
    from gitdb.stream import FDCompressedSha1Writer
    p = H.put('file', b'')
    fd = os.open(p, os.O_WRONLY)
    H.fault(H.int('at', 1, maxop), H.int('short', 1, 1 << 20) if short else None, burst(H, span))

    def work():
        w = FDCompressedSha1Writer(fd)
        try:
            w.write(H.src('a', H.int('n', 0, 1 << 20)))
        finally:
            w.close()
    res, exc = H.catch(work)
    failed = exc is not None
    res = exc = None
    H.check(H.nofault() or not failed, 'nothing fails by itself')
    none_open(H, 'closing the writer closes its descriptor')


def cases(tier):
    big = tier != 'quick'
    out = []
    m = 1 << (20 if big else 12)

    def add(nm, fn, bounds, **p):
        out.append(dict(name=nm, fn=fn, params=p, bounds=bounds, max_steps=20000))
    for form in ('bytesio', 'feed', 'sha'):
        for present in (False, True):
            for short in (False, True):
                if form == 'bytesio' and not big:
                    continue
                add('store-%s%s%s' % (form, '-present' if present else '', '-short' if short else ''), storing, 'objects of up to %d bytes in up to 3 chunks; every single failing call' % m,
                    form=form, maxn=m, present=present, short=short, maxop=16)
    add('source', source, 'the source stream fails', maxn=m)
    for what in ('info', 'has', 'size', 'read', 'part', 'unread', 'close', 'partial'):
        add('ask-' + what, asking, 'every single failing call', what=what, maxn=m, maxop=10)
        if what in ('info', 'read', 'has'):
            add('missing-' + what, asking, 'an object that is not there', what=what, maxn=m, maxop=0, missing=True)
            for d in ('type', 'size', 'empty', 'garbage'):
                add('damaged-%s-%s' % (d, what), asking, 'an object file that is damaged', what=what, maxn=m, maxop=0, damaged=d)
    for present in (False, True):
        for write in (False, True):
            for stream in (False, True):
                for end in ('commit', 'rollback', 'drop'):
                    add('lock-%s%s-%s%s' % ('w' if write else 'r', '-stream' if stream else '', end, '-old' if present else ''), lock, 'every single failing call',
                        write=write, stream=stream, end=end, present=present, maxop=8)
    for short in (False, True):
        add('writer' + ('-short' if short else ''), writer, 'every single failing call', short=short, maxop=4)
    # several calls in a row fail
    for form in ('feed', 'sha'):
        for present in (False, True):
            add('store-%s%s-burst' % (form, '-present' if present else ''), storing, 'up to 8 calls in a row fail', form=form, maxn=m, present=present, short=False, maxop=16, span=8)
    for what in ('info', 'read', 'part', 'unread', 'close'):
        add('ask-%s-burst' % what, asking, 'up to 8 calls in a row fail', what=what, maxn=m, maxop=10, span=8)
    for present in (False, True):
        for write in (False, True):
            for stream in (False, True):
                for end in ('commit', 'rollback', 'drop'):
                    add('lock-%s%s-%s%s-burst' % ('w' if write else 'r', '-stream' if stream else '', end, '-old' if present else ''), lock, 'up to 8 calls in a row fail',
                        write=write, stream=stream, end=end, present=present, maxop=8, span=8)
    add('writer-burst', writer, 'up to 4 calls in a row fail', short=False, maxop=4, span=4)
    return out
