"""Input materialisation shared by the symbolic and the concrete side (no solver needed)."""
import random
import zlib


_BLOCKS = []


def _blocks():
    if not _BLOCKS:
        r = random.Random(7)            # contents that do not compress
        _BLOCKS.extend(r.randbytes(256) for k in range(256))
    return _BLOCKS


def filler(name, i):
    """byte of an unconstrained content position"""
    return _blocks()[((i >> 8) * 37 + (i >> 16) * 11 + zlib.crc32(name.encode())) & 255][i & 255]


def mat_src(name, spec):
    """bytes of a content source: {'n': length, 'p': [[index, value], ...]}"""
    n = spec['n']
    seed = zlib.crc32(name.encode())
    blocks = _blocks()
    b = bytearray(b''.join(blocks[(i * 37 + (i >> 8) * 11 + seed) & 255] for i in range((n + 255) >> 8))[:n])
    for i, v in spec['p']:
        if 0 <= i < n:
            b[i] = v & 255
    return bytes(b)


_TABLES = {}


def measure(data, final=False):
    """(raw fragment bytes, out_for_in, cons_for_out) of data as one byte-aligned deflate run"""
    key = data, final
    if key in _TABLES:
        return _TABLES[key]
    c = zlib.compressobj(9, zlib.DEFLATED, -15)
    raw = c.compress(data) + c.flush(zlib.Z_FINISH if final else zlib.Z_FULL_FLUSH)
    n = len(raw)
    out_for_in = []
    for k in range(n + 1):
        d = zlib.decompressobj(-15)
        out_for_in.append(len(d.decompress(raw[:k])))
    cons = [None] * (len(data) + 1)
    for o in range(1, len(data) + 1):
        d = zlib.decompressobj(-15)
        got = d.decompress(raw, o)
        assert len(got) == o
        cons[o] = n - len(d.unconsumed_tail)
    # without room for output: whatever is read up to the first symbol
    pre = b'\0\1\0\xfe\xffA'
    d = zlib.decompressobj(-15)
    d.decompress(pre + raw, 1)
    cons[0] = n - len(d.unconsumed_tail)
    _TABLES[key] = (raw, out_for_in, cons)
    return _TABLES[key]


def build_real(parts):
    """a zlib stream: parts are ('stored', bytes) | ('raw', bytes) | ('flush',), and as the last one
    ('last', bytes) a final stored block | ('rawlast', bytes) a final compressed run | ('short',) the
    shortest final block | nothing: a final empty stored block"""
    out = bytearray(b'\x78\x01')
    content = b''
    end = b'\x01\0\0\xff\xff'
    for p in parts:
        if p[0] in ('stored', 'last'):
            n = len(p[1])
            assert n <= 65535
            out += (b'\x01' if p[0] == 'last' else b'\0') + n.to_bytes(2, 'little') + (n ^ 0xffff).to_bytes(2, 'little') + p[1]
            content += p[1]
        elif p[0] in ('raw', 'rawlast'):
            out += measure(p[1], p[0] == 'rawlast')[0]
            content += p[1]
        elif p[0] == 'flush':
            out += b'\0\0\0\xff\xff'
        if p[0] in ('last', 'rawlast', 'short'):
            end = b'\x03\0' if p[0] == 'short' else b''
    out += end
    out += zlib.adler32(content).to_bytes(4, 'big')
    out = bytes(out)
    assert zlib.decompress(out) == content
    return out
