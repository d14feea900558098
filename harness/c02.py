"""C02: sized reads and rewinds of object streams return the exact bytes."""

ASSUMPTIONS = ['compressed data is a valid zlib stream made of stored blocks of any length and contents (S: the final block), fixed '
               'runs compressed by zlib itself (X: the final one), empty blocks (flush markers) and the shortest final block (e), '
               'in the orders listed per case',
               'read sizes are positive; read(0) and negative sizes ask for the rest of the object by design']

TEXT = b'abcabdabcabeabcabd'
ZEROS = b'\0' * 40
HUGE = b'\0' * 20000


def reads(H, st, obj, size, steps, maxread, rewind_at, label, wholes=False):
    """steps sized reads, a rewind before read number rewind_at (symbolic)"""
    pos = 0
    for i in range(steps):
        if rewind_at == i:
            st.seek(0)
            pos = 0
            H.reach('rewind')
        n = H.int('r%d' % i, 1, maxread)
        got = st.read(n)
        want = size - pos
        if n < want:
            want = n
        else:
            H.reach('end')
        H.check(len(got) == want, label + 'a read returns the requested number of bytes, or what is left')
        H.eq(got, obj[pos:pos + want], label + 'a read returns the next bytes of the object')
        pos = pos + want
    if wholes:
        H.eq(st.read(), obj[pos:], label + 'an unsized read returns the rest of the object')
        H.check(len(st.read()) == 0, label + 'nothing is left after that')


def shape(H, kind, maxlen, name=''):
    """(parts, contents)"""
    parts = []
    obj = b''
    for i, k in enumerate(kind):
        if k in 'sS':
            lo, hi = maxlen if isinstance(maxlen, tuple) else (0, maxlen)
            a = H.src('a%d' % i, H.int('n%d' % i, lo, hi))
            parts.append(('stored' if k == 's' else 'last', a))
            obj = obj + a
        elif k == 'b':      # few stored bytes
            a = H.src('a%d' % i, H.int('n%d' % i, 0, 12))
            parts.append(('stored', a))
            obj = obj + a
        elif k == 't':
            parts.append(('raw', TEXT))
            obj = obj + TEXT
        elif k == 'z':
            parts.append(('raw', ZEROS))
            obj = obj + ZEROS
        elif k == 'Z':
            parts.append(('raw', HUGE))
            obj = obj + HUGE
        elif k == 'X':
            parts.append(('rawlast', TEXT))
            obj = obj + TEXT
        elif k == 'f':
            parts.append(('flush',))
        elif k == 'e':
            parts.append(('short',))
    return parts, obj


def direct(H, kind, maxlen, maxread, steps, trail, rest=False):
    """the reader over the compressed data of a pack entry"""
    from gitdb.stream import DecompressMemMapReader
    parts, obj = shape(H, kind, maxlen)
    size = len(obj)
    m = H.zstream('z', parts)
    if trail:
        m = m + H.src('after', H.int('nafter', 0, 64))
    st = DecompressMemMapReader(m, False, size)
    rw = H.int('rewind', 0, steps)
    reads(H, st, obj, size, steps, maxread, rw, '', rest)


def typed(H, kind, maxlen, maxread, steps, new, rest=False):
    """the reader over a loose object, header included"""
    from gitdb.stream import DecompressMemMapReader
    parts, obj = shape(H, kind, maxlen)
    size = len(obj)
    head = b'blob ' + (b'%d' % size) + b'\0'
    if parts and parts[0][0] in ('stored', 'last'):
        parts[0] = (parts[0][0], head + parts[0][1])
    else:
        parts.insert(0, ('stored', head))
    m = H.zstream('z', parts)
    if new:
        typ, sz, st = DecompressMemMapReader.new(m)
        H.eq(typ, b'blob', 'type of a loose object')
        H.check(sz == size, 'size of a loose object')
    else:
        st = DecompressMemMapReader(m, False)
    rw = H.int('rewind', 0, steps)
    reads(H, st, obj, size, steps, maxread, rw, '', rest)


def cases(tier):
    big = tier != 'quick'
    out = []
    M = 65535
    B = 1 << 40

    def add(nm, fn, bounds, **p):
        out.append(dict(name=nm, fn=fn, params=p, bounds=bounds, max_steps=6000))
    for kind in (('s', 'S', 'ss', 'fs', 'sf', 'fff', 'sfs', 'bfb', 'se') + (('bbb', 'ffffs', 'sbs', 'sss', 'bfbfb') if big else ())):
        n = 3 if kind == 's' or big and len(kind) < 3 else 2
        add('pack-' + kind, direct, 'blocks %s, any lengths up to 65535, %d reads of any size, rewind anywhere' % (kind, n),
            kind=kind, maxlen=M, maxread=B, steps=n, trail=True)
    for kind in ('t', 'ft', 'z', 'tf', 'X', 'te', 'e') + (('tb', 'bt', 'tt') if big else ()):
        add('pack-' + kind, direct, 'blocks %s (t, z: compressed text and zeros), 2 reads of any size, rewind anywhere' % kind,
            kind=kind, maxlen=40, maxread=1000, steps=2, trail=True)
    add('pack-Z', direct, 'a highly compressible run of 20000 bytes, 1 read of 1..40 or more bytes, rewind anywhere',
        kind='Z', maxlen=40, maxread=40, steps=2, trail=True)
    R = (('tiny', (0, 9)), ('mid', (8100, 8300)), ('large', (10000, 65000)))
    if big:
        R += (('small', (10, 8100)),)
    for kind in (('s', 'fs') + (('ss', 'sf', 'bs', 'sfs', 'fffs') if big else ())):
        for rn, r in R:
            for new in (True, False):
                add('loose-%s-%s-%s' % (kind, rn, 'new' if new else 'lazy'), typed,
                    'blocks %s of %d..%d bytes, %d reads of any size, rewind anywhere' % (kind, r[0], r[1], 3 if big and kind == 's' else 2),
                    kind=kind, maxlen=r, maxread=B, steps=3 if big and kind == 's' else 2, new=new)
    for kind in ('s', 'fsf', 't') if not big else ('s', 'fsf', 't', 'sbs', 'bfb'):
        add('pack-rest-' + kind, direct, 'blocks %s, one sized read, then all the rest' % kind, kind=kind, maxlen=M, maxread=B,
            steps=1, trail=True, rest=True)
        add('loose-rest-' + kind, typed, 'blocks %s, one sized read, then all the rest' % kind, kind=kind, maxlen=(1, 99), maxread=B,
            steps=1, new=True, rest=True)
    return out
