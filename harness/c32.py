"""C32: file content helpers return exactly the bytes of the file."""

ASSUMPTIONS = ['files of up to 5 GiB (of more than 1 GiB: their length and their last bytes; a single read delivers at most 2 GiB - 4 KiB, as on Linux)',
               'the descriptor passed in is positioned at the start of the file']


def whole(H, how, maxn):
    """the contents as a buffer or as a stream, mapped or not"""
    import gc
    from gitdb import util
    n = H.int('n', 0, maxn)
    data = H.src('a', n)
    path = H.put('f', data)
    stream = H.bit('stream')
    if how == 'path':
        c = util.file_contents_ro_filepath(path, stream=stream, allow_mmap=H.bit('mmap'))
    else:
        fd = util.os.open(path, util.os.O_RDONLY)
        c = util.file_contents_ro(fd, stream=stream, allow_mmap=H.bit('mmap'))
        util.os.close(fd)
    if stream:
        k = H.int('k', 1, 1 << 31)
        w = k if k < n else n
        H.eq(c.read(k), data[:w], 'a sized read of the stream')
        H.eq(c.read(), data[w:], 'the rest of the stream')
        H.reach('stream')
    else:
        H.check(len(c) == n, 'the length of the contents')
        H.eq(bytes(c[:]), data, 'the contents')
        i = H.int('i', 0, maxn)
        j = H.int('j', 0, maxn)
        H.assume(i <= j)
        e = j if j < n else n
        b = i if i < e else e
        H.eq(bytes(c[i:j]), data[b:e], 'a part of the contents')
        H.reach('buffer')
    # a mapping holds its own descriptor for as long as it lives
    c = None
    gc.collect()
    H.check(H.fds() == 0, 'no descriptor is left open')


def huge(H, maxn):
    """no single read delivers a file of this size"""
    import gc
    from gitdb import util
    n = H.int('n', 2 << 30, maxn)
    end = H.src('a', 8)
    path = H.put_sparse('f', [n, end])
    stream = H.bit('stream')
    mmap = H.bit('mmap')
    if H.bit('fd'):
        fd = util.os.open(path, util.os.O_RDONLY)
        c = util.file_contents_ro(fd, stream=stream, allow_mmap=mmap)
        util.os.close(fd)
    else:
        c = util.file_contents_ro_filepath(path, stream=stream, allow_mmap=mmap)
    if stream:
        c.seek(n)
        H.eq(c.read(8), end, 'the last bytes through the stream')
        H.eq(c.read(8), b'', 'nothing follows')
        H.reach('stream')
    else:
        H.check(len(c) == n + 8, 'the length of the contents')
        H.eq(bytes(c[n:n + 8]), end, 'the last bytes')
        H.reach('buffer')
    c = None
    gc.collect()
    H.check(H.fds() == 0, 'no descriptor is left open')


def changed(H, maxn):
    """what is returned belongs to the file as it was opened, whatever happens to its name"""
    from gitdb import util
    data = H.src('a', H.int('n', 0, maxn))
    path = H.put('f', data)
    c = util.file_contents_ro_filepath(path, allow_mmap=H.bit('mmap'))
    H.unlink('f')
    H.eq(bytes(c[:]), data, 'the contents after the file was removed')
    r, exc = H.catch(util.file_contents_ro_filepath, path)
    H.check(isinstance(exc, OSError), 'a missing file is an error')
    H.reach('removed')


def memory(H, maxn):
    """memory blocks: zeroed, of the size asked for, readable and writable like a file"""
    from gitdb import util
    n = H.int('n', 0, maxn)
    m = util.allocate_memory(n)
    w = H.int('w', 0, maxn)
    H.assume(w <= n)
    data = H.src('a', w)
    m.write(data)
    H.check(m.tell() == w, 'position after a write')
    m.seek(0)
    H.eq(m.read(w) if w > 0 else b'', data, 'what was written')
    H.check(len(m.read()) == n - w, 'the rest is there')
    m.seek(0)
    i = H.int('i', 0, maxn)
    H.assume(i < w)
    H.check(m[i] == data[i], 'a byte of it')
    H.reach('memory')


def cases(tier):
    out = []

    def add(nm, fn, bounds, **p):
        out.append(dict(name=nm, fn=fn, params=p, bounds=bounds, max_steps=10000))
    for how in ('path', 'fd'):
        add('whole-' + how, whole, 'files of up to 1 GiB, mapped or read, as stream or buffer', how=how, maxn=1 << 30)
    out.append(dict(name='huge', fn=huge, params=dict(maxn=5 << 30), bounds='files of 2 to 5 GiB that are a hole and 8 bytes',
                    max_steps=10000, real=dict(timeout=120, mem=14 << 30), witnesses=2))
    add('changed', changed, 'files of up to 1 MiB removed afterwards', maxn=1 << 20)
    add('memory', memory, 'blocks of up to 1 GiB', maxn=1 << 30)
    return out
