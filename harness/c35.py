"""C35: a broken delta chain is an error, never data, and always found out."""
from harness import lib
from harness.c03 import header

ASSUMPTIONS = ['packs of up to 3 entries with 8 byte objects; which entries are deltas, of which kind, and what each refers to (any id of the pack, '
               'itself and later ones included, an absent id, any earlier entry, itself, the pack header, something before or '
               'beyond the file), the size broken deltas announce for their base is symbolic, and so are the contents']

ABSENT = b'\x99' * 20


def sha(i):
    return bytes([(91 * i + 17) % 251] * 2 + [i] * 18)


def distance(d):
    """the encoding git uses for base distances"""
    out = [d & 127]
    d >>= 7
    while d:
        d -= 1
        out.insert(0, 128 | d & 127)
        d >>= 7
    return bytes(out)


def build(H, n):
    """(objects by entry; None where the chain is broken)"""
    # a delta may announce the size of another delta's data, rather than that of its base
    lie = H.bit('lie')
    data = b'PACK' + lib.u32(2) + lib.u32(n)
    offs, base, lit = [], [], []
    for j in range(n):
        ofs = len(data)
        far = [('absent', 0), ('absent', ofs), ('absent', ofs - 4), ('absent', ofs + 9), ('absent', ofs + 300), ('absent', 1 << 45)]
        kinds = [('base', None)] + [('ref', k) for k in range(n)] + [('ref', None)] + [('ofs', ofs - o) for o in offs] + [('ofs', d) for _, d in far]
        kind, x = H.pick('entry%d' % j, kinds)
        a = H.src('a%d' % j, 8 if kind == 'base' else 4)
        if kind == 'base':
            base.append(None)
            data = data + header(3, 8, 1) + H.zstream('z%d' % j, [('stored', a)])
        else:
            d = bytes([9 if lie else 8, 8, 0x90, 4, 4]) + a
            if kind == 'ref':
                base.append(-1 if x is None else x)
                mid = ABSENT if x is None else sha(x)
            else:
                base.append(offs.index(ofs - x) if ofs - x in offs else -1)
                mid = distance(x)
            data = data + header(6 if kind == 'ofs' else 7, 9, 1) + mid + H.zstream('z%d' % j, [('stored', d)])
        offs.append(ofs)
        lit.append(a)
    data = data + b'T' * 20
    idx = sorted(range(n), key=sha)
    H.put('pack/pack-1.pack', data)
    H.put('pack/pack-1.idx', lib.index_v2(H, [sha(i) for i in idx], [0] * n, [offs[i] for i in idx]))

    def value(j):
        chain, k = [], j
        while True:
            if k in chain or k < 0:
                return None
            chain.append(k)
            if base[k] is None:
                break
            k = base[k]
        v = lit[chain[-1]]
        for k in reversed(chain[:-1]):
            v = v[:4] + lit[k]
        return v
    want = [value(j) for j in range(n)]
    if lie:
        # (whole chains have a check of their own)
        H.assume(all(w is None or k is None for w, k in zip(want, base)))
    return want


def found(H, exc):
    H.check(not isinstance(exc, (MemoryError, RecursionError)), 'a broken chain is found out before memory runs out')


def judge(H, want, get, what):
    """get() must give the object, or raise if there is none"""
    res, exc = H.catch(get)
    found(H, exc)
    if want is None:
        H.check(exc is not None, what + ': a broken chain is an error')
        H.reach('refused')
        return
    if exc is not None:
        raise exc
    H.reach('served')
    return res


def chains(H, n, via, last):
    from gitdb.pack import PackEntity
    from gitdb.db import PackedDB, GitDB
    want = build(H, n)
    if via == 'entity':
        e = PackEntity(H.root + '/pack/pack-1.pack')
    elif via == 'packed':
        e = PackedDB(H.root + '/pack')
    else:
        e = GitDB(H.root)
    for j in ([n - 1] if last else range(n)):
        w = want[j]
        i = judge(H, w, lambda: e.info(sha(j)), 'info')
        if w is not None:
            H.eq(i.type, b'blob', 'info: type')
            H.check(i.size == 8, 'info: size')
        d = judge(H, w, lambda: e.stream(sha(j)).read(), 'stream')
        if w is not None:
            H.eq(d, w, 'stream: contents')
        if via != 'entity':
            H.check(e.has_object(sha(j)), 'the index lists it')


def walk(H, n, how):
    """enumeration and verification"""
    from gitdb.pack import PackEntity
    want = build(H, n)
    e = PackEntity(H.root + '/pack/pack-1.pack')
    if how == 'valid':
        for j in range(n):
            res, exc = H.catch(e.is_valid_stream, sha(j), False)
            found(H, exc)
            if want[j] is None:
                H.check(exc is not None or not res, 'a broken chain is never valid')
                H.reach('refused')
            elif exc is not None:
                raise exc
        return
    order = [want[i] for i in sorted(range(n), key=sha)]
    if how == 'streams':
        res, exc = H.catch(lambda: [s.read() for s in e.stream_iter()])
    else:
        res, exc = H.catch(lambda: list(e.info_iter()))
    found(H, exc)
    if None in order:
        H.check(exc is not None, 'a broken chain is an error')
        H.reach('refused')
        return
    if exc is not None:
        raise exc
    H.check(len(res) == n, 'all objects')
    for r, w in zip(res, order):
        if how == 'streams':
            H.eq(r, w, 'contents')
        else:
            H.check(r.size == 8, 'size')
    H.reach('served')


def cases(tier):
    big = tier != 'quick'
    out = []

    def add(nm, fn, bounds, **p):
        out.append(dict(name=nm, fn=fn, params=p, bounds=bounds, max_steps=4000))
    for via in ('entity', 'packed', 'git'):
        add('one-' + via, chains, 'every pack of one entry', n=1, via=via, last=False)
        add('two-' + via, chains, 'every pack of two entries', n=2, via=via, last=False)
    add('three', chains, 'every pack of three entries, the last object', n=3, via='entity', last=True)
    if big:
        add('three-all', chains, 'every pack of three entries, every object', n=3, via='git', last=False)
    for how in ('streams', 'infos', 'valid'):
        add('walk-' + how, walk, 'every pack of two entries', n=2, how=how)
    return out
