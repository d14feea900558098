"""C21: hashing writers digest and pass on exactly what was written."""
import hashlib

ASSUMPTIONS = ['sequences of up to the stated number of writes of any length and contents',
               'the compressor is modelled as emitting stored blocks on flush']


def parts(H, k, maxn):
    return [H.src('w%d' % i, H.int('n%d' % i, 0, maxn)) for i in range(k)]


def join(ws):
    out = b''
    for w in ws:
        out = out + w
    return out


def digests(H, w, data, label):
    H.eq(w.sha(), hashlib.sha1(data).digest(), label + 'binary digest')
    x = w.sha(as_hex=True)
    H.eq(x.encode('ascii') if isinstance(x, str) else x, hashlib.sha1(data).hexdigest().encode('ascii'), label + 'hex digest')


def make(H, kind, sink):
    import os
    from gitdb import stream
    if kind == 'plain':
        return stream.Sha1Writer(), None
    if kind == 'pass':
        return stream.FlexibleSha1Writer(sink.append), None
    if kind == 'zip':
        return stream.ZippedStoreShaWriter(), None
    fd = os.open(H.root + '/f', os.O_WRONLY | os.O_CREAT, 0o600)
    return stream.FDCompressedSha1Writer(fd), fd


def writes(H, kind, k, maxn, early):
    ws = parts(H, k, maxn)
    sink = []
    w, fd = make(H, kind, sink)
    at = H.int('peek', 0, k) if early else k
    for i, d in enumerate(ws):
        if at == i:
            digests(H, w, join(ws[:i]), 'so far: ')
        r = w.write(d)
        if kind != 'pass':
            H.check(r == len(d), 'a write returns the length of its data')
    data = join(ws)
    digests(H, w, data, '')
    if kind == 'pass':
        H.eq(b''.join(sink), data, 'everything is passed on unchanged')
    elif kind in ('zip', 'fd'):
        w.close()
        if kind == 'zip':
            w.seek(0)
            z = w.getvalue()
        else:
            z = H.get('f')
            H.check(H.fds() == 0, 'the descriptor is closed')
        back = H.zdecode(z)
        H.check(back is not None, 'the result is one complete zlib stream')
        H.eq(back, data, 'the compressed data decompresses to everything written')
        digests(H, w, data, 'after closing: ')
    H.reach('done')


def failing(H, k, maxn, short):
    """the file writer when a call fails"""
    ws = parts(H, k, maxn)
    w, fd = make(H, 'fd', None)
    H.fault(H.int('at', 1, k + 3), H.int('short', 1, 1 << 20) if short else None)

    def work():
        for d in ws:
            w.write(d)
        w.close()
    res, exc = H.catch(work)
    hit = H.nofault()
    if exc is None:
        back = H.zdecode(H.get('f'))
        H.check(back is not None, 'without an exception the file is one complete zlib stream')
        H.eq(back, join(ws), 'without an exception everything was written')
        H.reach('complete')
    else:
        H.check(hit, 'nothing fails by itself')
        H.check(isinstance(exc, OSError), 'a failure is reported as such')
        H.reach('failed')


def cases(tier):
    big = tier != 'quick'
    out = []

    def add(nm, fn, bounds, **p):
        out.append(dict(name=nm, fn=fn, params=p, bounds=bounds, max_steps=20000))
    m = 1 << 30
    for kind in ('plain', 'pass', 'zip', 'fd'):
        mm = 20000 if kind in ('zip', 'fd') else m
        for k in (0, 1, 2, 3) + ((5, 8) if big else ()):
            add('%s-%d' % (kind, k), writes, '%d writes of up to %d bytes' % (k, mm), kind=kind, k=k, maxn=mm, early=k > 0)
    for kind in ('zip', 'fd'):
        add(kind + '-big', writes, '2 writes of up to 2^26 bytes', kind=kind, k=2, maxn=1 << 26, early=False)
    for k in (0, 1, 2) + ((4,) if big else ()):
        for short in (False, True):
            add('fail-%d%s' % (k, '-short' if short else ''), failing, '%d writes, every single failing call' % k, k=k, maxn=20000, short=short)
    return out
