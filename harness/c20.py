"""C20: concurrent stores of the same object do not disturb each other."""
from harness.c01 import git_id
from harness.c16 import istream, names

ASSUMPTIONS = ['every interleaving of the file system calls of the two writers within the stated number of context switches; calls '
               'are atomic',
               'temporary names are unique (mkstemp)', 'the compressor is modelled as emitting stored blocks on flush']


def both(H, forms, maxn, present, switches, shared, multi=False):
    from gitdb.db import LooseObjectDB
    n = H.int('n', 100, maxn)
    data = H.src('a', n)
    chunk = H.int('chunk', 50 if multi else maxn + 100, 1 << 20)
    if multi:
        H.assume(chunk * 2 > n + 50)
        H.assume(chunk < n)
    LooseObjectDB.stream_chunk_size = chunk
    typ = b'blob'
    sha = git_id(H, typ, data, n)
    name = names(H, sha)
    full = typ + b' ' + (b'%d' % n) + b'\0' + data
    H.mkdir('objects')
    if present:
        H.put('objects/' + name, H.zstream('pz', [('stored', full)]))

    def watch():
        got = H.get('objects/' + name)
        if got is not None:
            back = H.zdecode(got)
            H.check(back is not None, 'whenever the object is visible it is one complete zlib stream')
            H.eq(back, full, 'whenever the object is visible it is complete')
            H.reach('visible')
        elif present:
            H.fail('an object that was there does not vanish')

    dbs = [LooseObjectDB(H.root + '/objects')]
    dbs.append(dbs[0] if shared else LooseObjectDB(H.root + '/objects'))
    ists = [istream(H, f, typ, data, n, sha) for f in forms]
    res = H.schedule(lambda: dbs[0].store(ists[0]), lambda: dbs[1].store(ists[1]), switches, watch)
    for r, e in res:
        if e is not None:
            H.fail('both stores succeed', '%s: %s' % (type(e).__name__, e))
        else:
            H.eq(r.binsha, sha, 'both stores give the same id')
    watch()
    H.check(H.files('objects') == [name], 'one object and no temporary file is left')
    H.check(dbs[0].has_object(sha), 'the object is found')
    H.reach('done')


def reading(H, maxn, switches):
    """one stores, the other looks the object up"""
    from gitdb.db import LooseObjectDB
    from gitdb.exc import BadObject
    n = H.int('n', 0, maxn)
    data = H.src('a', n)
    typ = b'blob'
    sha = git_id(H, typ, data, n)
    H.mkdir('objects')
    ist = istream(H, 'feed', typ, data, n, sha)
    w, r = LooseObjectDB(H.root + '/objects'), LooseObjectDB(H.root + '/objects')

    def look():
        try:
            st = r.stream(sha)
        except BadObject:
            return None
        return (st.type, st.size, st.read())
    (_, e0), (got, e1) = H.schedule(lambda: w.store(ist), look, switches)
    if e0 is not None:
        raise e0
    if e1 is not None:
        raise e1
    if got is not None:
        H.eq(got[0], typ, 'a reader sees the whole object or none: type')
        H.check(got[1] == n, 'a reader sees the whole object or none: size')
        H.eq(got[2], data, 'a reader sees the whole object or none: data')
        H.reach('seen')
    else:
        H.reach('not yet')


def cases(tier):
    big = tier != 'quick'
    out = []
    sw = 6 if big else 3

    def add(nm, fn, bounds, **p):
        out.append(dict(name=nm, fn=fn, params=p, bounds=bounds, max_steps=20000))
    for forms in (('feed', 'feed'), ('feed', 'sha'), ('sha', 'sha')):
        for present in (False, True):
            for shared in (False, True) if forms[1] == 'feed' and not present else (False,):
                s = sw
                add('%s-%s%s%s' % (forms + ('-present' if present else '', '-shared' if shared else '')), both,
                    'objects of 100 to 999 bytes, up to %d context switches' % s, forms=forms, maxn=999, present=present, switches=s, shared=shared)
    for forms in (('feed', 'feed'), ('sha', 'sha')):
        add('%s-%s-chunks' % forms, both, 'in two or three chunks, up to %d context switches' % (sw if big else 2), forms=forms, maxn=999, present=False, switches=sw if big else 2, shared=False, multi=True)
    add('reading', reading, 'a store and a lookup, up to %d context switches' % (sw + 1), maxn=999, switches=sw + 1)
    return out
