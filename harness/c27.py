"""C27: a delta that does not fit the sizes it announces is an error, never data."""
from harness import lib
from harness.c05 import num
from harness.c07 import sha, entry, ofs_enc

ASSUMPTIONS = ['packs with a whole object and a chain of one or two deltas on top; one delta announces any base and target size',
               'the data of entries is held in stored zlib blocks']


def commands(H, i, bsize, form, base, lit):
    """(command stream, result) of a delta; copies stay within the base"""
    cmds, out = b'', b''
    for j, f in enumerate(form):
        if f == 'c':
            ofs, size = H.int('o%d.%d' % (i, j), 0, 65535), H.int('s%d.%d' % (i, j), 1, 65535)
            H.assume(ofs + size <= bsize)
            cmds = cmds + bytes([128 + 0x33, ofs % 256, ofs // 256, size % 256, size // 256])
            out = out + base[ofs:ofs + size]
        else:
            n = H.int('i%d.%d' % (i, j), *lit)
            a = H.src('l%d.%d' % (i, j), n)
            cmds = cmds + bytes([n]) + a
            out = out + a
    return cmds, out


def sizes(H, chain, wrong, forms, maxbase, via, which, lit=(1, 127), wide=False):
    """delta number `wrong` announces sizes of its own"""
    from gitdb.pack import PackEntity
    from gitdb.db import PackedDB
    cur = H.src('base', H.int('nbase', 16, maxbase))
    bodies = [(3, cur)]
    fits = None
    for i, k in enumerate(chain):
        cmds, t = commands(H, i, len(cur), forms[i], cur, lit)
        s, d = len(cur), len(t)
        if i == wrong:
            a, b = s, d
            if 's' in which:
                a = H.int('announced.base', 0, (1 << 62) if wide else maxbase * 2)
            if 't' in which:
                b = H.int('announced.target', 0, (1 << 62) if wide else maxbase * 2)
            fits = H.all(a == s, b == d)
            s, d = a, b
        bodies.append((6 if k == 'o' else 7, num(H, s, 9 if wide else 3) + num(H, d, 9 if wide else 3) + cmds))
        cur = t
    data = b'PACK' + lib.u32(2) + lib.u32(len(bodies))
    offs = []
    for j, (t, body) in enumerate(bodies):
        offs.append(len(data))
        mid = ofs_enc(H, offs[j] - offs[j - 1]) if t == 6 else sha(j - 1) if t == 7 else b''
        data = data + entry(H, t, body, mid, 'z%d' % j)
    data = data + b'T' * 20
    shas = [sha(i) for i in range(len(bodies))]
    idx = sorted(range(len(bodies)), key=lambda i: shas[i])
    H.put('pack-1.pack', data)
    H.put('pack-1.idx', lib.index_v2(H, [shas[i] for i in idx], [0] * len(bodies), [offs[i] for i in idx]))
    e = PackEntity(H.root + '/pack-1.pack') if via == 'entity' else PackedDB(H.root)
    st, exc = H.catch(e.stream, shas[-1])
    got = None
    if exc is None:
        got, exc = H.catch(st.read)
    if fits:
        if exc is not None:
            raise exc
        H.eq(got, cur, 'a delta that fits is applied')
        H.check(st.size == len(cur), 'size of the result')
        H.reach('fits')
    else:
        H.check(exc is not None, 'a delta that does not fit the sizes it announces fails')
        H.reach('unfit')


def cases(tier):
    big = tier != 'quick'
    out = []

    def add(nm, bounds, **p):
        out.append(dict(name=nm, fn=sizes, params=p, bounds=bounds, max_steps=10000))
    for c, w in (('o', 0), ('r', 0), ('oo', 0), ('oo', 1), ('ro', 0), ('or', 1)) + ((('rr', 0), ('rr', 1), ('ooo', 1)) if big else ()):
        for which in ('s', 't') + (('st',) if len(c) == 1 or big else ()):
            for f in (('ci', 'ic', 'c') if len(c) == 1 else ('c', 'i')):
                n = 2000 if len(c) == 1 else 200
                add('%s-%d-%s-%s' % (c, w, which, f), 'chain %s, delta %d announces any %s size below %d, base of 16 to %d bytes'
                    % (c, w, {'s': 'base', 't': 'target', 'st': 'base and target'}[which], 2 * n, n),
                    chain=c, wrong=w, forms=[f, 'ci', 'ic'] if big else [f, 'c' if f == 'i' else 'i'], maxbase=n, via='entity' if w else 'db', which=which,
                    lit=(1, 127) if len(c) == 1 else (24, 100))
    for c in ('o', 'r'):
        for which in ('s', 't'):
            for f in ('ci', 'c'):
                add('%s-wide-%s-%s' % (c, which, f), 'chain %s, the delta announces any size below 2^62' % c, chain=c, wrong=0, forms=[f], maxbase=2000,
                    via='db', which=which, wide=True)
    return out
