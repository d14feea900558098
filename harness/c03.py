"""C03: walking a pack visits every entry exactly once and terminates."""
from harness import lib
from harness.c02 import TEXT

ASSUMPTIONS = ['entry data is a valid zlib stream made of stored blocks of any length and contents, runs compressed by zlib, '
               'and empty blocks, in the orders listed per case',
               'the chunk size of the walk is lowered (symbolic) in some cases; the code is the same for every chunk size']

TYPES = {'c': 1, 't': 2, 'b': 3, 'g': 4}


def header(t, size, nbytes):
    """entry header of a symbolic size that needs nbytes bytes"""
    b = [t * 16 + size % 16]
    size = size // 16
    for _ in range(nbytes - 1):
        b[-1] = b[-1] + 128
        b.append(size % 128)
        size = size // 128
    return bytes(b)


LIM = [16, 1 << 11, 1 << 18, 1 << 25, 1 << 32]


def body(H, i, shape, maxlen):
    parts, obj = [], b''
    for j, k in enumerate(shape):
        if k in 'sS':
            a = H.src('e%d.%d' % (i, j), H.int('e%d.n%d' % (i, j), 0, maxlen))
        elif k in 'TX':
            a = TEXT
        elif k in 'ZY':
            a = b'a' * 700
        elif k == 'e':
            parts.append(('short',))
            continue
        else:
            parts.append(('flush',))
            continue
        parts.append(({'T': 'raw', 'X': 'rawlast', 'Z': 'raw', 'Y': 'rawlast', 's': 'stored', 'S': 'last'}[k], a))
        obj = obj + a
    return parts, obj


def walk(H, entries, maxlen, chunk, read, start=0):
    """entries: list of (kind, shape); kind: c t b g whole objects, o / r deltas"""
    from gitdb.pack import PackFile
    if chunk is not None:
        lib.set_chunk(H.int('chunk', chunk[0], chunk[1]))
    data = b'PACK' + lib.u32(2) + lib.u32(len(entries))
    want = []
    for i, (kind, shape) in enumerate(entries):
        parts, obj = body(H, i, shape, maxlen)
        size = len(obj)
        nb = 1
        while size >= LIM[nb - 1]:
            nb += 1
        ofs = len(data)
        info = None
        t = TYPES.get(kind) or (6 if kind == 'o' else 7)
        data = data + header(t, size, nb)
        if kind == 'o':
            info = 12 if i < 2 else 200
            data = data + lib.ofs_base(info)
        elif kind == 'r':
            info = bytes([7] * 20)
            data = data + info
        data = data + H.zstream('z%d' % i, parts)
        want.append((ofs, t, size, obj, info))
    data = data + H.src('trailer', 20)
    pf = PackFile(H.put('pack-x.pack', data))
    H.check(pf.size() == len(entries), 'the announced number of entries')
    H.check(pf.version() == 2, 'version')
    H.eq(bytes(pf.checksum()), data[len(data) - 20:], 'trailer')
    n = start
    for st in pf.stream_iter(want[start][0]) if start else pf.stream_iter():
        H.check(n < len(want), 'no more entries than the pack has')
        ofs, t, size, obj, info = want[n]
        n += 1
        H.check(st.pack_offset == ofs, 'entries come in file order with their true offset')
        H.check(st.type_id == t, 'type of the entry')
        H.check(st.size == size, 'size of the entry')
        if info is not None:
            d = st.delta_info
            H.check((bytes(d) if isinstance(info, bytes) else d) == info, 'delta base of the entry')
        if read == 'all':
            H.eq(st.read(), obj, 'data of the entry')
        elif read == 'some':
            k = H.int('k%d' % n, 1, 1 << 20)
            want_n = k if k < size else size
            H.eq(st.read(k), obj[:want_n], 'data of the entry')
    H.check(n == len(want), 'every entry is visited')
    H.reach('walked')


def cases(tier):
    big = tier != 'quick'
    out = []

    def add(nm, bounds, entries, maxlen=65535, chunk=None, read='all', start=0):
        out.append(dict(name=nm, fn=walk, params=dict(entries=entries, maxlen=maxlen, chunk=chunk, read=read, start=start),
                        bounds=bounds, max_steps=6000))
    one = ['', 'e', 'S', 'X', 'se', 's', 'f', 'fs', 'ss', 'sf', 'T', 'TsT', 'fTf', 'sss', 'fff', 'sff', 'ff'] + (['ssss', 'sfs', 'sfff', 'fsfsf'] if big else [])
    for sh in one:
        add('one-' + (sh or 'empty'), 'one entry, blocks "%s" of any length up to 65535' % sh, [('b', sh)])
        add('two-' + (sh or 'empty'), 'an entry "%s" followed by others' % sh, [('c', sh), ('t', ''), ('g', 's')],
            maxlen=2047 if 's' in sh.lower() else 65535)
    add('deltas', 'whole, offset and reference deltas mixed', [('b', ''), ('o', 's'), ('r', 's'), ('g', '')], maxlen=2047)
    add('empties', 'empty objects in every position', [('b', ''), ('c', 'f'), ('t', ''), ('b', 'ff'), ('g', '')])
    add('empties-short', 'empty objects in their shortest encoding', [('b', 'e'), ('c', 'e'), ('t', 'S'), ('g', 'e')], maxlen=30)
    add('unread', 'partial reads between steps', [('b', 's'), ('c', 'T')], maxlen=2000, read='some')
    add('noread', 'no reads between steps', [('b', 's'), ('c', 'T'), ('b', 's')], maxlen=300, read='none')
    for st in (1, 2):
        add('start%d' % st, 'a walk that starts at entry %d' % st, [('b', 's'), ('o', 's'), ('r', 's')], maxlen=300, start=st)
    for sh in ['s', 'ss', 'T'] + (['sf', 'fs', 'sss'] if big else []):
        add('chunk-' + sh, 'copy chunk of 8..16 bytes, entry "%s" of up to 40 bytes' % sh, [('b', sh), ('b', '')], maxlen=20, chunk=(8, 16))
    # data that decompresses to much more than what it was read from: the end of the stream is found in what a read left over
    for sh in ['Z', 'Y', 'Ze', 'Zs', 'sY'] + (['ZZ', 'fYe', 'ZsZ', 'TY'] if big else []):
        for c in ((90, 110), (300, 310), (699, 701)) + (((8, 40), (340, 360)) if big else ()):
            add('dense-%s-%d' % (sh, c[0]), 'copy chunk of %d..%d bytes, entry "%s" that compresses very well, followed by another' % (c + (sh,)),
                [('b', sh), ('c', 's')], maxlen=20, chunk=c)
    return out
