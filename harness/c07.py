"""C07: deltified objects resolve through their whole base chain."""
from harness import lib
from harness.c03 import header, LIM
from harness.c05 import num

ASSUMPTIONS = ['packs with the chain shapes listed per case; contents, sizes and copy ranges are symbolic',
               'every delta is one copy and one insert (or the reverse), its data held in one stored zlib block']

TYPES = [b'commit', b'tree', b'blob', b'tag']


def ofs_enc(H, dist):
    """base distance of an offset delta"""
    if dist < 128:
        return bytes([dist])
    d = dist - 128
    if d < 16384:
        return bytes([128 + d // 128, d % 128])
    d = d - 16384
    H.assume(d < 128 * 16384)
    return bytes([128 + d // 16384, 128 + (d // 128) % 128, d % 128])


def entry(H, t, body, mid=b'', name='z', parts=None):
    size = len(body)
    nb = 1
    while size >= LIM[nb - 1]:
        nb += 1
    return header(t, size, nb) + mid + H.zstream(name, parts or [('stored', body)])


def delta(H, i, base, form, lit):
    """(delta, target)"""
    bsize = len(base)
    ofs, size = H.int('o%d' % i, 0, 65535), H.int('s%d' % i, 1, 65535)
    if 'W' not in form:
        H.assume(ofs + size <= bsize)
    if 'w' in form:         # all of the base
        H.assume(ofs == 0)
        H.assume(size == bsize)
        form = form.replace('w', 'c')
        ofs = 0
        size = bsize
    cp = bytes([128 + 0x33, ofs % 256, ofs // 256, size % 256, size // 256])
    nb = 3
    if 'W' in form:         # all of a large base
        form = form.replace('W', 'c')
        ofs, size, nb = 0, bsize, 4
        cp = bytes([128 + 0x70, size % 256, size // 256 % 256, size // 65536])
    n = H.int('i%d' % i, *lit)
    a = H.src('l%d' % i, n)
    ins = bytes([n]) + a
    part = base[ofs:ofs + size]
    if form == 'ci':
        cmds, t = cp + ins, part + a
    elif form == 'ic':
        cmds, t = ins + cp, a + part
    elif form == 'c':
        cmds, t = cp, part
    else:
        cmds, t = ins, a
    return num(H, bsize, nb) + num(H, len(t), nb) + cmds, t


def sha(i):
    return bytes([(37 * i + 11) % 251] * 2 + [i] * 18)


def build(H, chain, forms, maxbase, typ, order, missing=False, lit=(24, 100), head=b''):
    """chain: string of o / r, first is applied to the base.  Returns (name, [(sha, type, data)])"""
    lo = 16 if lit[0] > 1 else 0 if forms[0] == 'i' or not chain else 1
    tail = H.src('base', H.int('nbase', lo, maxbase))
    base = head + tail if head else tail
    objs = [base]
    bodies = [(typ + 1, base, None)]
    for i, k in enumerate(chain):
        d, t = delta(H, i, objs[-1], forms[i % len(forms)], lit)
        objs.append(t)
        bodies.append((6 if k == 'o' else 7, d, i))
    data = b'PACK' + lib.u32(2) + lib.u32(len(objs))
    offs = [None] * len(objs)
    for j in order:
        t, body, b = bodies[j]
        offs[j] = len(data)
        mid = b''
        if t == 6:
            mid = ofs_enc(H, offs[j] - offs[b])
        elif t == 7:
            mid = sha(b) if not (missing and b == 0) else b'\xee' * 20
        data = data + entry(H, t, body, mid, 'z%d' % j, [('raw', head), ('stored', tail)] if head and j == 0 else None)
    data = data + b'T' * 20
    shas = [sha(i) for i in range(len(objs))]
    idx = sorted(range(len(objs)), key=lambda i: shas[i])
    H.put('pack-1.pack', data)
    H.put('pack-1.idx', lib.index_v2(H, [shas[i] for i in idx], [0] * len(objs), [offs[i] for i in idx]))
    return objs, shas


def orders(chain):
    """a file order in which offset deltas follow their base; reference deltas precede it"""
    out = [0]
    for i, k in enumerate(chain):
        if k == 'o':
            out.insert(out.index(i) + 1, i + 1)
        else:
            out.insert(0, i + 1)
    return out


def check_obj(H, e, s, typ, data):
    info = e.info(s)
    st = e.stream(s)
    n = len(data)
    H.eq(bytes(info.binsha), s, 'info: id')
    H.eq(bytes(st.binsha), s, 'stream: id')
    H.eq(info.type, typ, 'info: type of the base')
    H.eq(st.type, typ, 'stream: type of the base')
    H.check(info.size == n, 'info: size of the target')
    H.check(st.size == n, 'stream: size of the target')
    return st


def resolve(H, chain, forms, maxbase, order, all_objs, via, lit=(24, 100)):
    from gitdb.pack import PackEntity
    from gitdb.db import PackedDB
    typ = H.pick('type', [0, 1, 2, 3]) if len(chain) == 1 else 2
    objs, shas = build(H, chain, forms, maxbase, typ, order, lit=lit)
    e = PackEntity(H.root + '/pack-1.pack') if via == 'entity' else PackedDB(H.root)
    for i in (range(len(objs)) if all_objs else [len(objs) - 1]):
        st = check_obj(H, e, shas[i], TYPES[typ], objs[i])
        H.eq(st.read(), objs[i], 'the result of applying the chain')
        st.stream.seek(0)
        H.eq(st.read(), objs[i], 'the result again after a rewind')
    H.reach('resolved')


def walkall(H, chain, forms, maxbase, order):
    """all objects of the entity, by enumeration"""
    from gitdb.pack import PackEntity
    objs, shas = build(H, chain, forms, maxbase, 2, order)
    e = PackEntity(H.root + '/pack-1.pack')
    seen = []
    for st in e.stream_iter():
        k = shas.index(bytes(st.binsha))
        seen.append(k)
        H.eq(st.read(), objs[k], 'enumerated stream')
        H.check(st.size == len(objs[k]), 'size of an enumerated stream')
    H.check(sorted(seen) == list(range(len(objs))), 'every object is enumerated once')
    for info in e.info_iter():
        k = shas.index(bytes(info.binsha))
        H.eq(info.type, b'blob', 'enumerated type')
        H.check(info.size == len(objs[k]), 'enumerated size')
    H.reach('enumerated')


def reads(H, chain, forms, maxbase, order):
    """sized reads of the resolved object"""
    from gitdb.pack import PackEntity
    objs, shas = build(H, chain, forms, maxbase, 2, order)
    e = PackEntity(H.root + '/pack-1.pack')
    st = e.stream(shas[-1])
    obj = objs[-1]
    n = len(obj)
    pos = 0
    rw = H.int('rewind', 0, 2)
    for i in range(2):
        if rw == i:
            st.stream.seek(0)
            pos = 0
        k = H.int('r%d' % i, 1, 1 << 20)
        w = k if k < n - pos else n - pos
        H.eq(st.read(k), obj[pos:pos + w], 'a sized read returns the next bytes')
        pos = pos + w
    H.reach('reads')


def deep(H, chain, via):
    """a long chain: every delta appends a byte"""
    from gitdb.pack import PackEntity
    from gitdb.db import PackedDB
    base = H.src('base', 20)
    objs = [base]
    data = b'PACK' + lib.u32(2) + lib.u32(len(chain) + 1)
    offs = [len(data)]
    data = data + entry(H, 2, base, name='z0')
    shas = [bytes([i % 251, i // 251]) + b's' * 18 for i in range(len(chain) + 1)]
    for i, k in enumerate(chain):
        lit = H.src('l%d' % i, 1) if i % 16 == 3 else bytes([i % 256])
        m = 20 + i
        d = num(H, m, 2) + num(H, m + 1, 2) + bytes([0xb0, m % 256, m // 256, 1]) + lit
        objs.append(objs[-1] + lit)
        offs.append(len(data))
        data = data + entry(H, 6 if k == 'o' else 7, d, ofs_enc(H, offs[-1] - offs[-2]) if k == 'o' else shas[i], 'z%d' % (i + 1))
    idx = sorted(range(len(objs)), key=lambda i: shas[i])
    H.put('pack-1.pack', data + b'T' * 20)
    H.put('pack-1.idx', lib.index_v2(H, [shas[i] for i in idx], [0] * len(objs), [offs[i] for i in idx]))
    e = PackEntity(H.root + '/pack-1.pack') if via == 'entity' else PackedDB(H.root)
    k = H.pick('k', [len(chain) // 2, len(chain)])
    st = check_obj(H, e, shas[k], TYPES[1], objs[k])
    H.eq(st.read(), objs[k], 'the result of applying the chain')
    H.reach('deep')


def missing(H, chain, maxbase, order):
    """a chain whose base is not in the pack"""
    from gitdb.pack import PackEntity
    from gitdb.db import PackedDB
    objs, shas = build(H, chain, ('ci',), maxbase, 2, order, missing=True)
    for e in (PackEntity(H.root + '/pack-1.pack'), PackedDB(H.root)):
        r, exc = H.catch(e.info, shas[-1])
        H.check(exc is not None, 'info fails if the base of a chain is missing')
        r, exc = H.catch(lambda: e.stream(shas[-1]).read())
        H.check(exc is not None, 'the stream fails if the base of a chain is missing')
    H.reach('missing')


def cases(tier):
    big = tier != 'quick'
    out = []

    def add(nm, fn, bounds, **p):
        out.append(dict(name=nm, fn=fn, params=p, bounds=bounds, max_steps=10000))
    import itertools
    for ln in (1, 2, 3) + ((4,) if big else ()):
        for c in itertools.product('or', repeat=ln):
            c = ''.join(c)
            ords = [orders(c)]
            nat = list(range(len(c) + 1))
            if nat != ords[0]:
                ords.append(nat)
            for oi, o in enumerate(ords):
                if ln > 2 and oi == 1 and not big:
                    continue
                add('chain-%s-%d' % (c, oi), resolve, 'chain %s (file order %s), base up to 2000 bytes, any copy ranges and literals' % (c, o),
                    chain=c, forms=('ci', 'ic') if ln < 3 or big else ('wi', 'iw', 'ci'), maxbase=2000 if ln < 3 else 500, order=o, all_objs=ln == 1, via='entity' if (ln + oi) % 2 else 'db')
    for c in ('o', 'r') + (('oo', 'ro', 'or', 'rr') if big else ()):
        add('tiny-' + c, resolve, 'chain %s, base from 1 byte, literals of 1..127 bytes' % c, chain=c, forms=('ci', 'ic'), maxbase=2000,
            order=orders(c), all_objs=True, via='db', lit=(1, 127))
    for c in ('o', 'oo', 'ro', 'or'):
        for f in (('c', 'i'), ('i', 'c'), ('c', 'c'), ('i', 'ci')):
            add('forms-%s-%s' % (c, '.'.join(f)), resolve, 'growing and shrinking chains', chain=c, forms=f, maxbase=600, order=orders(c), all_objs=True, via='entity')
    add('far-o', resolve, 'bases up to 60000 bytes (long base distances)', chain='oo', forms=('ci',), maxbase=60000, order=[0, 1, 2], all_objs=False, via='entity')
    for c in ('o', 'ro', 'oro') + (('ror', 'rro') if big else ()):
        add('enum-' + c, walkall, 'enumeration of a pack with chain %s' % c, chain=c, forms=('ci', 'iw', 'wi'), maxbase=300, order=orders(c))
    for c in ('o', 'or') + (('ro', 'oro') if big else ()):
        add('reads-' + c, reads, '2 sized reads and a rewind of chain %s' % c, chain=c, forms=('ci', 'iw'), maxbase=300, order=orders(c))
    for c in ('r', 'ro', 'rr', 'ror') + (('roo', 'rrr', 'rro') if big else ()):
        add('missing-' + c, missing, 'chain %s with a base that is not in the pack' % c, chain=c, maxbase=300, order=orders(c))
    for i, (k, n) in enumerate((('o', 60), ('r', 60), ('or', 40)) + ((('o', 300), ('r', 300), ('roo', 120)) if big else ())):
        add('deep-%s-%d' % (k, n), deep, 'a chain of %d deltas (kinds repeat %s), any contents of the base' % (n * len(k), k), chain=k * n, via='entity' if i % 2 else 'db')
        out[-1]['max_steps'] = 100000
    return out
