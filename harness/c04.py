"""C04: pack entry headers survive encoding and decoding."""
import io

ASSUMPTIONS = ['object sizes below 2^63 (ten header bytes) in the encoder; headers of at most the stated length in '
               'the decoder']

TYPES = (1, 2, 3, 4)


def spec_header(t, size, nbytes):
    """the encoding git prescribes for `size` when it takes nbytes bytes"""
    out = []
    for i in range(nbytes):
        if i == 0:
            b = (t << 4) | (size & 15)
            size = size >> 4
        else:
            b = size & 127
            size = size >> 7
        if i < nbytes - 1:
            b = b | 128
        out.append(b)
    return bytes(out)


def roundtrip(H, lo, hi):
    from gitdb.fun import create_pack_object_header, pack_object_header_info
    t = H.int('type', 1, 7)
    size = H.int('size', lo, hi)
    hdr = create_pack_object_header(t, size)
    n = len(hdr)
    H.reach('encoded %d' % n)
    # git: 4 bits in the first byte, 7 in every other, shortest form
    want = 1
    while (4 + 7 * (want - 1)) < 70 and size >> (4 + 7 * (want - 1)):
        want += 1
    H.check(n == want, 'header has the length git uses')
    H.eq(hdr, spec_header(t, size, want), 'header bytes are the ones git prescribes')
    tail = H.cells('tail', 3)
    for data in (bytes(hdr) + tail, memoryview(bytes(hdr) + tail)):
        t2, s2, i2 = pack_object_header_info(data)
        H.check(H.all(t2 == t, s2 == size, i2 == n), 'decoding the header gives type, size and length back')


def decode(H, n):
    from gitdb.fun import pack_object_header_info
    data = H.cells('h', n + 1)
    # exactly n bytes belong to the header
    for i in range(n - 1):
        H.assume(data[i] >= 128)
    H.assume(data[n - 1] < 128)
    want = data[0] & 15
    for i in range(1, n):
        want = want + ((data[i] & 127) << (4 + 7 * (i - 1)))
    t, s, i = pack_object_header_info(data)
    H.reach('decoded %d' % n)
    H.check(i == n, 'the data starts after the header')
    H.check(t == (data[0] >> 4) & 7, 'type bits')
    H.check(s == want, 'size bits')


def entry(H, kind, hdr_len, base_len):
    """pack_object_at on a base, offset-delta or ref-delta entry inside a pack file"""
    from gitdb.pack import PackFile
    pre = 12
    head = H.cells('h', hdr_len)
    for i in range(hdr_len - 1):
        H.assume(head[i] >= 128)
    H.assume(head[hdr_len - 1] < 128)
    t = (head[0] >> 4) & 7
    if kind == 'ofs':
        H.assume(t == 6)
        base = H.cells('b', base_len)
        for i in range(base_len - 1):
            H.assume(base[i] >= 128)
        H.assume(base[base_len - 1] < 128)
        # git: get_delta_base
        dist = base[0] & 127
        for i in range(1, base_len):
            dist = ((dist + 1) << 7) + (base[i] & 127)
    elif kind == 'ref':
        H.assume(t == 7)
        base = H.cells('b', 20)
    else:
        H.assume(H.all(t >= 1, t <= 4))
        base = b''
    size = head[0] & 15
    for i in range(1, hdr_len):
        size = size + ((head[i] & 127) << (4 + 7 * (i - 1)))
    pad = H.conc(H.int('pad', 0, 3))
    data = b'PACK' + b'\0\0\0\2\0\0\0\1' + b'x' * pad + head + base + H.cells('rest', 6) + b'\0' * 20
    path = H.put('p.pack', data)
    p = PackFile(path)
    ofs = pre + pad
    for as_stream in (False, True):
        o = p.stream(ofs) if as_stream else p.info(ofs)
        H.check(o.pack_offset == ofs, 'offset of the entry')
        H.check(o.type_id == t, 'type of the entry')
        H.check(o.size == size, 'size of the entry')
        if kind == 'ofs':
            H.check(o.delta_info == dist, 'distance to the base')
        elif kind == 'ref':
            H.eq(bytes(o.delta_info), base, 'id of the base')
        if as_stream:
            # where the compressed data starts
            H.eq(o.stream.data()[:6], data[ofs + hdr_len + len(base):ofs + hdr_len + len(base) + 6],
                 'data start')
    H.reach('entry %s' % kind)


def cases(tier):
    big = tier != 'quick'
    out = []
    step = [(0, (1 << 18) - 1), (1 << 18, (1 << 32) - 1), (1 << 32, (1 << 46) - 1), (1 << 46, (1 << 63) - 1)]
    for lo, hi in step:
        out.append(dict(name='roundtrip<=%d' % hi, fn=roundtrip, mode='bv', params=dict(lo=lo, hi=hi),
                        bounds='every type 1..7, every size in [%d, %d]' % (lo, hi)))
    for n in range(1, 13 if big else 11):
        out.append(dict(name='decode%d' % n, fn=decode, mode='bv', params=dict(n=n),
                        bounds='all headers of %d bytes' % n))
    for hl in ((1, 2, 5, 9) if big else (1, 3)):
        out.append(dict(name='entry-base-%d' % hl, fn=entry, mode='bv', params=dict(kind='base', hdr_len=hl, base_len=0),
                        bounds='all %d-byte headers of whole objects, pad 0..3' % hl))
        out.append(dict(name='entry-ref-%d' % hl, fn=entry, mode='bv', params=dict(kind='ref', hdr_len=hl, base_len=0),
                        bounds='all %d-byte headers, all 20-byte base ids' % hl))
        for bl in ((1, 2, 3, 4, 5, 8) if big else (1, 2, 3, 5)):
            out.append(dict(name='entry-ofs-%d-%d' % (hl, bl), fn=entry, mode='bv',
                            params=dict(kind='ofs', hdr_len=hl, base_len=bl),
                            bounds='all %d-byte headers, all %d-byte base distances' % (hl, bl)))
    return out
