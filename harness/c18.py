"""C18: merging a chain of deltas equals applying them one after the other."""
from harness.c05 import Out, Stream, num, commands

ASSUMPTIONS = ['every delta of the chain is well formed and made against the result of the next one',
               'chains with the command sequences listed per case; copy ranges, literal lengths and all contents are symbolic']


def delta(H, i, kinds, base, maxcopy, maxlit):
    """(delta, target) with the given commands against base"""
    bsize = len(base)
    d, t = b'', b''
    for k, c in enumerate(kinds):
        nm = '%d.%d' % (i, k)
        if c == 'c':
            ofs, size = H.int('o' + nm, 0, maxcopy), H.int('s' + nm, 1, maxcopy)
            H.assume(ofs + size <= bsize)
            d = d + bytes([128 + 0x33, ofs % 256, ofs // 256, size % 256, size // 256])
            t = t + base[ofs:ofs + size]
        else:
            n = H.int('n' + nm, 1, maxlit)
            a = H.src('a' + nm, n)
            d = d + bytes([n]) + a
            t = t + a
    return num(H, bsize, 3) + num(H, len(t), 3) + d, t


def build(H, chain, maxbase, maxlit):
    base = H.src('base', H.int('nbase', 1, maxbase))
    bufs = [base]
    deltas = []
    for i, kinds in enumerate(chain):
        d, t = delta(H, i, kinds, bufs[-1], maxbase, maxlit)
        deltas.append(d)
        bufs.append(t)
    return base, deltas, bufs[-1]


def merge(H, chain, maxbase=65535, maxlit=127):
    from gitdb.fun import connect_deltas
    base, deltas, t = build(H, chain, maxbase, maxlit)
    dcl = connect_deltas([Stream(d, 'OFS_DELTA', 6) for d in reversed(deltas)])
    n = len(t)
    pos = 0
    for dc in dcl:
        H.check(dc.ts > 0, 'a merged change is not empty')
        H.check(dc.to == pos, 'the merged changes are contiguous')
        pos = pos + dc.ts
    H.check(pos == n, 'the merged changes cover the target')
    H.check(dcl.rbound() == n, 'the merged list reports the size of the target')
    H.check(dcl.size() == n, 'the merged list reports the size of the target')
    out = Out()
    dcl.apply(base, out.write)
    H.eq(b''.join(out.parts), t, 'applying the merged changes gives the target')
    res, exc = H.catch(dcl.check_integrity, n)
    H.check(exc is None, 'the integrity check accepts the merged list')
    H.reach('merged')


def masks(H, kinds, masks):
    """every copy encoding"""
    from gitdb.fun import connect_deltas
    bsize = H.int('bsize', 1, 1 << 33)
    base = H.src('base', bsize)
    d, t = commands(H, kinds, base, bsize, masks)
    n = len(t)
    H.assume(n < 1 << 28)
    dcl = connect_deltas([Stream(num(H, bsize, 5) + num(H, n, 4) + d, 'OFS_DELTA', 6)])
    pos = 0
    for dc in dcl:
        H.check(dc.to == pos, 'the changes are contiguous')
        pos = pos + dc.ts
    H.check(pos == n, 'the changes cover the target')
    out = Out()
    dcl.apply(base, out.write)
    H.eq(b''.join(out.parts), t, 'applying the changes gives the target')
    H.reach('applied')


def compress(H, kinds):
    """compressing a list keeps what it describes"""
    from gitdb.fun import DeltaChunkList, DeltaChunk
    base = H.src('base', H.int('nbase', 1, 65535))
    dcl, pos, t = DeltaChunkList(), 0, b''
    for k, c in enumerate(kinds):
        n = H.int('n%d' % k, 1, 65535)
        if c == 'c':
            o = H.int('o%d' % k, 0, 65535)
            H.assume(o + n <= len(base))
            dcl.append(DeltaChunk(pos, n, o, None))
            t = t + base[o:o + n]
        else:                   # possibly truncated: more data than the chunk uses
            m = H.int('m%d' % k, 1, 65535)
            H.assume(m >= n)
            a = H.src('a%d' % k, m)
            dcl.append(DeltaChunk(pos, n, 0, a))
            t = t + a[:n]
        pos = pos + n
    dcl.compress()
    at = 0
    for dc in dcl:
        H.check(dc.ts > 0, 'a change is not empty')
        H.check(dc.to == at, 'the changes are contiguous')
        at = at + dc.ts
    H.check(at == pos, 'the changes cover the target')
    out = Out()
    dcl.apply(base, out.write)
    H.eq(b''.join(out.parts), t, 'applying the compressed list gives the target')
    H.reach('compressed')


def chunks(H, tag, cls, kinds, base):
    """a list of changes to base, and what it describes"""
    from gitdb.fun import DeltaChunk
    dcl, pos, t = cls(), 0, b''
    for k, c in enumerate(kinds):
        n = H.int('n%s%d' % (tag, k), 1, 65535)
        if c == 'c':
            o = H.int('o%s%d' % (tag, k), 0, 1 << 20)
            H.assume(o + n <= len(base))
            dcl.append(DeltaChunk(pos, n, o, None))
            t = t + base[o:o + n]
        else:                   # possibly truncated: more data than the chunk uses
            m = H.int('m%s%d' % (tag, k), 1, 65535)
            H.assume(m >= n)
            a = H.src('a%s%d' % (tag, k), m)
            dcl.append(DeltaChunk(pos, n, 0, a))
            t = t + a[:n]
        pos = pos + n
    return dcl, t


def step(H, top, below):
    """one step of the merge, from whatever the steps before have left behind"""
    from gitdb.fun import DeltaChunkList, TopdownDeltaChunkList
    if not hasattr(TopdownDeltaChunkList, 'connect_with_next_base'):
        return      # the merge is organised differently
    base = H.src('base', H.int('nbase', 1, 65535))
    bdcl, mid = chunks(H, 'b', DeltaChunkList, below, base)
    dcl, t = chunks(H, 't', TopdownDeltaChunkList, top, mid)
    more = dcl.connect_with_next_base(bdcl)
    if not more:
        H.check(all(dc.data is not None for dc in dcl), 'a merge ends when nothing is left to be copied')
        H.reach('ended')
    pos = 0
    for dc in dcl:
        H.check(dc.ts > 0, 'a merged change is not empty')
        H.check(dc.to == pos, 'the merged changes are contiguous')
        pos = pos + dc.ts
    H.check(pos == len(t), 'the merged changes cover the target')
    out = Out()
    dcl.apply(base, out.write)
    H.eq(b''.join(out.parts), t, 'applying the merged changes gives the target')
    H.reach('stepped')


def reader(H, chain):
    """the reader that merges first, against the one that applies one after the other"""
    from gitdb.stream import DeltaApplyReader
    base, deltas, t = build(H, chain, 65535, 127)
    r = DeltaApplyReader.new([Stream(d, b'OFS_DELTA', 6) for d in reversed(deltas)] + [Stream(base)])
    if not hasattr(r, '_set_cache_too_slow_without_c'):
        return
    r._set_cache_too_slow_without_c('_size')
    H.check(r.size == len(t), 'the reader announces the size of the target')
    H.eq(r.read(), t, 'the reader delivers the target')
    H.reach('read')


def cases(tier):
    big = tier != 'quick'
    out = []

    def add(nm, fn, bounds, **p):
        out.append(dict(name=nm, fn=fn, params=p, bounds=bounds, max_steps=20000))

    one = ['c', 'i', 'ci', 'ic', 'cc', 'ii', 'iii', 'iiic', 'ciii', 'iiici', 'iiiciiic']
    for k in one:
        add('merge1-' + k, merge, 'one delta with commands %s' % k, chain=[k])
    for k in ('c', 'ci', 'ic'):
        add('masks-' + k, masks, 'one delta with commands %s, every copy encoding' % k, kinds=k, masks=list(range(128)))
    two = ['c', 'i', 'ci', 'ic', 'cc', 'cic', 'ici', 'iiic', 'ccc']
    for a in two:
        for b in two:
            if b == 'i' or len(a) + len(b) > (6 if big else 5) or not big and b == 'ccc' and a != 'c' or not big and (a, b) == ('ccc', 'cc'):
                continue
            add('merge2-%s-%s' % (a, b), merge, 'two deltas, %s then %s' % (a, b), chain=[a, b])
    add('merge2-iiic-cc', merge, 'two deltas, iiic then cc', chain=['iiic', 'cc'])
    add('merge2-cc-iiic', merge, 'two deltas', chain=['cc', 'iiic'])
    add('merge2-ci-i', merge, 'two deltas, the second ignores its base', chain=['ci', 'i'])
    three = ['c', 'ci', 'ic', 'cc']
    for a in three:
        for b in three:
            for c in three:
                if len(a) + len(b) + len(c) > (6 if big else 5) or not big and (a, b, c).count('cc') > 1:
                    continue
                add('merge3-%s-%s-%s' % (a, b, c), merge, 'three deltas, %s, %s, %s' % (a, b, c), chain=[a, b, c])
    add('merge4', merge, 'four deltas', chain=['ci', 'c', 'ic', 'c'])
    add('merge3-i', merge, 'three deltas, the middle one ignores its base', chain=['c', 'ii', 'cc'])
    for k in ['ii', 'iii', 'iiic', 'ciiic', 'iiiciic', 'cciiiic', 'iiiciiiic']:
        add('compress-' + k, compress, 'a list of chunks %s (i possibly truncated data)' % k, kinds=k)
    for t in ('i', 'c', 'ic', 'ci', 'cc', 'cic', 'ici', 'iici', 'icici'):
        for b in ('c', 'i', 'ci', 'ic', 'cc', 'icc'):
            if t.count('c') * len(b) > (4 if big else 3) or len(b) > 2 and (t.count('c') > 1 or len(t) > 2 and not big):
                continue
            add('step-%s-%s' % (t, b), step, 'a list %s merged with a list %s (i possibly truncated data), as one step of any merge' % (t, b), top=t, below=b)
    for ch in (['ci', 'ic'], ['ic', 'cc'], ['ci', 'ic', 'c']):
        add('reader-' + '-'.join(ch), reader, 'chain %s' % ch, chain=ch)
    return out
