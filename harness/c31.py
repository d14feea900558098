"""C31: every way to ask a pack for an object gives the same answer."""
from harness.c07 import build, orders, TYPES

ASSUMPTIONS = ['packs with the delta chains listed per case; contents, sizes and copy ranges are symbolic',
               'every delta is one copy and one insert, its data held in one stored zlib block']


def same(H, a, data, typ, s, label):
    H.eq(bytes(a.binsha), s, label + 'id')
    H.eq(a.type, typ, label + 'type')
    H.check(a.size == len(data), label + 'size')


def faces(H, chain, forms, maxbase, order, typ, head=0, lit=(24, 100)):
    from gitdb.pack import PackEntity
    from gitdb.db import PackedDB
    objs, shas = build(H, chain, forms, maxbase, typ, order, head=bytes(head), lit=lit)
    t = TYPES[typ]
    e = PackEntity(H.root + '/pack-1.pack')
    db = PackedDB(H.root)
    idx = e.index()
    n = len(objs)
    H.check(idx.size() == n and e.pack().size() == n and db.size() == n, 'number of objects')
    listed = [bytes(idx.sha(i)) for i in range(n)]
    H.check(listed == sorted(shas), 'the index lists the ids in order')
    i = H.pick('i', list(range(n)))
    s = listed[i]
    k = shas.index(s)
    data = objs[k]
    H.check(idx.sha_to_index(s) == i, 'position of the id')
    o, s2, crc = idx.entry(i)
    H.eq(bytes(s2), s, 'the id of the entry')
    H.check(o == idx.offset(i), 'the offset of the entry')
    how = H.pick('how', ['info', 'stream', 'info_at', 'stream_at', 'db', 'raw', 'chain', 'iter', 'close'])
    if how == 'info':
        same(H, e.info(s), data, t, s, 'info: ')
    elif how == 'stream':
        st = e.stream(s)
        same(H, st, data, t, s, 'stream: ')
        H.eq(st.read(), data, 'stream: contents')
    elif how == 'info_at':
        same(H, e.info_at_index(i), data, t, s, 'info by position: ')
    elif how == 'stream_at':
        st = e.stream_at_index(i)
        same(H, st, data, t, s, 'stream by position: ')
        H.eq(st.read(), data, 'stream by position: contents')
    elif how == 'db':
        same(H, db.info(s), data, t, s, 'database info: ')
        st = db.stream(s)
        same(H, st, data, t, s, 'database stream: ')
        H.eq(st.read(), data, 'database stream: contents')
    elif how == 'iter':
        infos, streams = list(e.info_iter()), list(e.stream_iter())
        H.check([bytes(x.binsha) for x in infos] == listed and [bytes(x.binsha) for x in streams] == listed,
                'iteration gives every object, in the order of the index')
        for a, b in zip(infos, streams):
            j = shas.index(bytes(a.binsha))
            same(H, a, objs[j], t, shas[j], 'iterated info: ')
            same(H, b, objs[j], t, shas[j], 'iterated stream: ')
            H.eq(b.read(), objs[j], 'iterated stream: contents')
        offs = sorted(idx.offset(j) for j in range(n))
        H.check([x.pack_offset for x in e.pack().stream_iter()] == offs, 'the pack gives every entry, in file order')
    elif how in ('raw', 'chain'):
        # the entry itself, by offset, and the list of entries the object is made of
        kinds = [None] + list(chain)
        p = e.pack()
        if how == 'raw':
            for x in (p.info(o), p.stream(o)):
                H.check(x.pack_offset == o, 'entry: offset')
                if kinds[k] is None:
                    H.check(x.type_id == typ + 1, 'entry: type')
                    H.eq(x.type, t, 'entry: type')
                    H.check(x.size == len(data), 'entry: size')
                    if hasattr(x, 'read'):
                        H.eq(x.read(), data, 'entry: contents')
                elif kinds[k] == 'o':
                    H.check(x.type_id == 6, 'entry: type')
                    base = idx.offset(idx.sha_to_index(shas[k - 1]))
                    H.check(o - x.delta_info == base, 'entry: base')
                else:
                    H.check(x.type_id == 7, 'entry: type')
                    H.eq(bytes(x.delta_info), shas[k - 1], 'entry: base')
        else:
            ss = e.collect_streams(s)
            H.check(len(ss) == k + 1, 'as many entries as there are links in the chain')
            for j, x in enumerate(ss):
                H.check(x.pack_offset == idx.offset(idx.sha_to_index(shas[k - j])), 'the entries of the chain, from the object to its base')
                H.check(x.type_id == {None: typ + 1, 'o': 6, 'r': 7}[kinds[k - j]], 'their types')
            only = p.collect_streams(o)
            m = 0
            while k - m > 0 and kinds[k - m] == 'o':
                m += 1
            H.check(len(only) == m + 1, 'the pack file alone follows offset deltas')
            for j, x in enumerate(only):
                H.check(x.pack_offset == ss[j].pack_offset, 'the same entries')
    else:
        # used, closed, used again
        H.eq(e.stream(s).read(), data, 'contents')
        f = PackEntity(H.root + '/pack-1.idx')
        same(H, f.info(s), data, t, s, 'opened by its index: ')
        H.eq(f.stream(s).read(), data, 'opened by its index: contents')
    H.reach(how)


def cases(tier):
    big = tier != 'quick'
    out = []
    for c in ('', 'o', 'r', 'oo', 'or', 'ro', 'rr', 'oor') + (('oro', 'ror', 'rro', 'orr', 'ooro') if big else ()):
        for typ in (0, 1, 2, 3) if len(c) < 2 else (len(c) % 4,):
            out.append(dict(name='pack-%s-%d' % (c, typ), fn=faces, params=dict(chain=c, forms=('ci', 'ic') if len(c) < 2 or big else ('wi', 'iw'), maxbase=2000 if len(c) < 2 else 60,
                                                                               order=orders(c), typ=typ),
                            bounds='pack with chain %s of %s objects, base up to %d bytes, every object by every way' % (c or '-', TYPES[typ].decode(),
                                                                                                                       2000 if len(c) < 2 else 60),
                            max_steps=10000))
    for c in ('', 'o') if not big else ('', 'o', 'r', 'or'):
        out.append(dict(name='tiny-%s' % c, fn=faces, params=dict(chain=c, forms=('ic', 'ic'), maxbase=30, order=orders(c), typ=2, lit=(0 if not c else 1, 30)),
                        bounds='pack with chain %s, base from 0 (with deltas: 1) to 30 bytes' % (c or '-'), max_steps=10000))
    for c in ('r', 'rr'):
        for n in (1 << 13,) + ((1 << 16,) if big else ()):
            out.append(dict(name='large-%s-%d' % (c, n), fn=faces, params=dict(chain=c, forms=('Wi', 'iW'), maxbase=2000, head=n, order=orders(c), typ=2),
                            bounds='pack with chain %s, base of %d to %d bytes, the first %d of which are zero' % (c, n + 16, n + 2000, n), max_steps=10000))
    return out
