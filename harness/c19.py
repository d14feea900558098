"""C19: verifying a packed object reports true exactly for intact data."""
import itertools
import zlib
from harness import lib
from harness.c01 import git_id
from harness.c03 import header, LIM
from harness.c07 import TYPES, delta, entry, ofs_enc, sha

ASSUMPTIONS = ['the chunk of the checksum loop is lowered (symbolic) so that entry sizes on both sides of its multiples are within the bound',
               'SHA-1 and CRC-32 of different data differ in the model (a collision is not taken for intact data)',
               'content verification: the entry decompresses and its chain resolves']


def crc(H, order, chunk, span, ask):
    """order: position in the file of the entries, which are in the order of their ids"""
    from gitdb.pack import PackEntity
    k = len(order)
    ch = H.int('chunk', *chunk)
    lib.set_chunk(ch)
    data = b'PACK' + lib.u32(2) + lib.u32(k)
    offs, crcs, right = [None] * k, [None] * k, [None] * k
    for j in range(k):
        i = order.index(j)      # the entry that comes next in the file
        n = H.int('n%d' % i, 2, 1 << 20)
        if i == ask:
            H.assume(n <= span * ch + 1)
        body = H.src('e%d' % i, n)
        offs[i] = len(data)
        data = data + body
        if i == ask:
            c = zlib.crc32(body)
            right[i] = H.bit('intact')
            if right[i]:
                crcs[i] = c
            else:
                crcs[i] = H.int('crc', 0, lib.U32)
                H.assume(H.no(crcs[i] == c))
        else:
            crcs[i] = 77
    H.put('pack-1.pack', data + b'T' * 20)
    shas = [bytes([10 + 50 * i]) + bytes([i] * 19) for i in range(k)]
    H.put('pack-1.idx', lib.index_v2(H, shas, crcs, offs))
    e = PackEntity(H.root + '/pack-1.pack')
    r = e.is_valid_stream(shas[ask], use_crc=True)
    if r:
        H.check(right[ask], 'success is only reported if the checksum matches')
        H.reach('intact')
    else:
        H.check(not right[ask], 'failure is only reported if the checksum differs')
        H.reach('damaged')


def content(H, chain, maxn, what):
    """what: the object's id is right, or that of the object with another type, other contents or another size"""
    from gitdb.pack import PackEntity
    lo = 100 if chain else 0
    base = H.src('base', H.int('nbase', lo, maxn))
    typ = H.pick('type', [0, 1, 2, 3]) if not chain else 2
    objs, bodies = [base], [(typ + 1, base)]
    for i, k in enumerate(chain):
        d, t = delta(H, i, objs[-1], 'wi' if i % 2 == 0 else 'ic', (24, 100))
        objs.append(t)
        bodies.append((6 if k == 'o' else 7, d))
    obj = objs[-1]
    n = len(obj)
    if what == 'right':
        last = git_id(H, TYPES[typ], obj, n)
    elif what == 'type':
        last = git_id(H, TYPES[(typ + 1) % 4], obj, n)
    elif what == 'short':
        H.assume(n > 0)
        last = git_id(H, TYPES[typ], obj[:n - 1], n - 1)
    elif what == 'long':
        last = git_id(H, TYPES[typ], obj + b'\n', n + 1)
    elif what == 'near':
        last = git_id(H, TYPES[typ], obj, n)
        k = H.pick('byte', range(20))
        last = last[:k] + bytes([last[k] ^ (1 << H.pick('bit', [0, 7]))]) + last[k + 1:]
    elif what == 'raw':
        import hashlib
        last = hashlib.sha1(obj).digest()
    else:
        H.assume(n > 0)
        p = H.int('at', 0, 1 << 20)
        H.assume(p < n)
        flip = (obj[p] + H.int('by', 1, 255)) % 256
        last = git_id(H, TYPES[typ], obj[:p] + bytes([flip]) + obj[p + 1:], n)
    shas = [bytes([200]) + sha(i)[1:] for i in range(len(chain))] + [last]
    data = b'PACK' + lib.u32(2) + lib.u32(len(objs))
    offs = []
    for j, (t, body) in enumerate(bodies):
        offs.append(len(data))
        mid = ofs_enc(H, offs[j] - offs[j - 1]) if t == 6 else shas[j - 1] if t == 7 else b''
        data = data + entry(H, t, body, mid, 'z%d' % j)
    H.put('pack-1.pack', data + b'T' * 20)
    idx = sorted(range(len(objs)), key=lambda i: shas[i])
    H.put('pack-1.idx', lib.index_v2(H, [shas[i] for i in idx], [0] * len(objs), [offs[i] for i in idx]))
    e = PackEntity(H.root + '/pack-1.pack')
    r = e.is_valid_stream(last)
    if what == 'right':
        H.check(r, 'an object with the right id is valid')
        H.reach('intact')
    else:
        H.check(not r, 'an object with another id is not valid')
        H.reach('damaged')


def v1(H):
    from gitdb.pack import PackEntity
    n = H.int('n', 2, 100)
    s = sha(1)
    H.put('pack-1.pack', b'PACK' + lib.u32(2) + lib.u32(1) + H.src('e', n) + b'T' * 20)
    H.put('pack-1.idx', lib.index_v1(H, [s], [12]))
    r, exc = H.catch(PackEntity(H.root + '/pack-1.pack').is_valid_stream, s, True)
    H.check(exc is not None, 'an index without checksums can not be used to verify them')


def cases(tier):
    big = tier != 'quick'
    out = []

    def add(nm, fn, bounds, **p):
        out.append(dict(name=nm, fn=fn, params=p, bounds=bounds, max_steps=8000))
    for k in (1, 2, 3) + ((4,) if big else ()):
        for o in itertools.permutations(range(k)):
            for ask in range(k):
                if k == 4 and ask not in (0, 3):
                    continue
                add('crc-%s-%d' % (''.join(map(str, o)), ask), crc, '%d entries in file order %s, the %d. verified, of up to %d chunks and a byte' % (k, o, ask, 3 if k < 3 else 2),
                    order=list(o), chunk=(1, 1 << 18), span=(4 if big else 3) if k < 3 else 2, ask=ask)
    for what in ('right', 'type', 'short', 'long', 'raw', 'byte', 'near'):
        for c in ('', 'o', 'r') + (('or', 'oo') if big or what in ('right', 'byte') else ()):
            add('content-%s-%s' % (what, c or 'whole'), content, 'object %s, of up to %d bytes; id: %s' % (c or 'whole', 5000 if not c else 300, what),
                chain=c, maxn=(50000 if big else 5000) if not c else 400 if big else 300, what=what)
    add('v1', v1, 'an index without checksums')
    return out
