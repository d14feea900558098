"""Builders for git file formats, written from the format descriptions (not from the code
under test).  They run on symbolic and on concrete data alike."""
import struct

U32 = (1 << 32) - 1


def u32(x):
    return struct.pack('>L', x)


def u64(x):
    return struct.pack('>Q', x)


def sorted_shas(H, n, prefix='sha', width=20):
    """n strictly ascending symbolic ids"""
    shas = [H.cells('%s%d' % (prefix, i), width) for i in range(n)]
    for i in range(n - 1):
        H.assume(shas[i] < shas[i + 1])
    return shas


def fanout(H, shas):
    """256 cumulative counts of the first bytes"""
    firsts = [s[0] for s in shas]

    def count(b):
        c = 0
        for f in firsts:
            c = c + H.ite(f <= b, 1, 0)
        return c
    return b''.join([u32(c) for c in H.table(256, count)])


def index_v2(H, shas, crcs, words, large=(), pack_sha=b'P' * 20, idx_sha=b'I' * 20):
    return b'\xfftOc' + u32(2) + fanout(H, shas) + b''.join(shas) + b''.join(u32(c) for c in crcs) + \
        b''.join(u32(w) for w in words) + b''.join(u64(x) for x in large) + pack_sha + idx_sha


def index_v1(H, shas, offsets, pack_sha=b'P' * 20, idx_sha=b'I' * 20):
    return fanout(H, shas) + b''.join(u32(o) + s for o, s in zip(offsets, shas)) + pack_sha + idx_sha


def entry_header(t, size):
    """pack entry header for concrete size"""
    out = bytearray()
    b = (t << 4) | (size & 15)
    size >>= 4
    while size:
        out.append(b | 128)
        b = size & 127
        size >>= 7
    out.append(b)
    return bytes(out)


def ofs_base(dist):
    """base distance of an offset delta (concrete)"""
    out = [dist & 127]
    dist >>= 7
    while dist:
        dist -= 1
        out.insert(0, 128 | (dist & 127))
        dist >>= 7
    return bytes(out)


def varint(size):
    out = bytearray()
    while size >= 128:
        out.append((size & 127) | 128)
        size >>= 7
    out.append(size)
    return bytes(out)


def copy_cmd(ofs, size, mask=None):
    """delta copy command; mask selects which argument bytes are present (default: minimal)"""
    args = [(ofs >> s) & 255 for s in (0, 8, 16, 24)] + [(size >> s) & 255 for s in (0, 8, 16)]
    cmd = 128
    out = []
    for i in range(7):
        if (mask is not None and mask >> i & 1) or (mask is None and args[i]):
            cmd |= 1 << i
            out.append(args[i])
    return bytes([cmd] + out)


def set_chunk(v):
    """replace the module constant that limits how much is processed at once; note that the
    attribute gitdb.pack is the module gitdb.db.pack"""
    import sys
    for name, m in list(sys.modules.items()):
        if name.split('.')[0] == 'gitdb' and m is not None and isinstance(vars(m).get('chunk_size'), int):
            m.chunk_size = v
