"""C38: a read that fails because of the system is reported, and not remembered."""
import gc
from harness import lib
from harness.c16 import names

ASSUMPTIONS = ['one call fails, or up to four in a row do: opening, mapping, reading and closing files, opening packs and their indexes; '
               'which ones is symbolic',
               'an object whose file cannot be opened may be reported as missing by info and stream', 'directory listings and existence checks do not fail',
               'an alternates file that cannot be read counts as a missing one until the next refresh']

LOOSE, WHOLE, DELTA, ALT, NONE = b'\x11' * 20, b'\x22' * 20, b'\x33' * 20, b'\x44' * 20, b'\x55' * 20


def build(H, kind):
    """{id: (type, data)}"""
    objs = {}

    def loose(d, s, typ, nm):
        n = H.int('n' + nm, 0, 2000)
        data = H.src('a' + nm, n)
        H.put(d + '/' + names(H, s), H.zstream('z' + nm, [('stored', typ + b' ' + (b'%d' % n) + b'\0' + data)]))
        objs[s] = (typ, data, n)
    H.mkdir('objects/pack')
    if kind != 'packed':
        loose('objects', LOOSE, b'tree', 'l')
    if kind == 'git':
        loose('alt', ALT, b'tag', 'r')
        H.mkdir('objects/info')
        H.put('objects/info/alternates', (H.root + '/alt\n').encode())
    if kind != 'loose':
        w, lit = H.src('aw', 8), H.src('ad', 4)
        body = bytes([0x38]) + H.zstream('zw', [('stored', w)])
        ofs = 12 + len(body)
        d = bytes([8, 8, 0x90, 4, 4]) + lit
        pack = b'PACK' + lib.u32(2) + lib.u32(2) + body + bytes([0x69]) + lib.ofs_base(len(body)) + H.zstream('zd', [('stored', d)])
        H.put('objects/pack/pack-1.pack', pack + b'T' * 20)
        H.put('objects/pack/pack-1.idx', lib.index_v2(H, [WHOLE, DELTA], [0, 0], [12, ofs]))
        objs[WHOLE] = (b'blob', w, 8)
        objs[DELTA] = (b'blob', w[:4] + lit, 8)
    return objs


def opened(H, kind):
    from gitdb.db import LooseObjectDB, PackedDB, GitDB
    if kind == 'packed':
        return PackedDB(H.root + '/objects/pack')
    return (LooseObjectDB if kind == 'loose' else GitDB)(H.root + '/objects')


def ask(db, what, s):
    from gitdb.exc import BadObject
    if what == 'refresh':
        return db.update_cache(True) and None
    if what == 'size':
        return db.size()
    if what == 'ids':
        return sorted(db.sha_iter())
    if what == 'has':
        return db.has_object(s)
    if what == 'partial':
        if not hasattr(db, 'partial_to_complete_sha_hex'):
            return db.partial_to_complete_sha(s[:3], 6)
        return db.partial_to_complete_sha_hex(s.hex()[:6])
    try:
        if what == 'info':
            i = db.info(s)
            return i.type, i.size
        st = db.stream(s)
        return st.type, st.size, st.read()
    except BadObject:
        return 'missing'


def right(H, objs, what, s, res, label):
    if what == 'size':
        H.check(res == len(objs), label + 'number of objects')
    elif what == 'ids':
        H.check(res == sorted(objs), label + 'enumeration')
    elif what == 'has':
        H.check(res == (s in objs), label + 'membership')
    elif what == 'partial':
        H.check(res == s, label + 'completion of an abbreviated id')
    elif what in ('info', 'stream'):
        if s not in objs:
            H.check(res == 'missing', label + 'an absent object')
            return
        H.check(res != 'missing', label + 'a present object is not missing')
        t, data, n = objs[s]
        H.eq(res[0], t, label + 'type')
        H.check(res[1] == n, label + 'size')
        if what == 'stream':
            H.eq(res[2], data, label + 'contents')


def failing(H, kind, what, warm, maxop):
    objs = build(H, kind)
    s = H.pick('id', sorted(objs) + ([NONE] if what != 'partial' else [])) if what not in ('refresh', 'size', 'ids', 'open') else None
    db = None
    if what != 'open':
        db = opened(H, kind)
        if warm and s is not None:
            ask(db, 'has', s)
    H.fault(H.int('at', 1, maxop), span=H.int('span', 1, 4), maps=True)
    if what == 'open':
        res, exc = H.catch(opened, H, kind)
    else:
        res, exc = H.catch(ask, db, what, s)
    used = H.nofault()
    if exc is None:
        if what == 'open':
            db = res
        # (the alternates cannot be told from none if their file cannot be read)
        elif used and res == 'missing':
            H.reach('reported as missing')
        elif not (used and kind == 'git' and (s == ALT or what in ('ids', 'size'))):
            right(H, objs, what, s, res, 'despite the failure: ' if used else '')
        H.reach('despite' if used else 'answered')
    else:
        H.check(used, 'nothing fails by itself')
        H.reach('reported')
    res = exc = None
    gc.collect()
    if kind == 'loose':     # (packs stay open)
        H.check(H.fds() == 0, 'no descriptor is left open')
    if db is None:
        db = opened(H, kind)
    # the same database object goes on
    again = H.bit('refresh')
    if again:
        db.update_cache(True)
    elif kind == 'git' and (what in ('refresh', 'open', 'ids', 'size', 'partial') or s in (ALT, NONE)):
        return
    elif kind == 'packed' and what in ('refresh', 'open'):
        return
    for w in ('has', 'info', 'stream', 'partial'):
        for x in sorted(objs) + ([NONE] if w != 'partial' else []):
            right(H, objs, w, x, ask(db, w, x), 'afterwards: ')
    right(H, objs, 'ids', None, ask(db, 'ids', None), 'afterwards: ')
    right(H, objs, 'size', None, ask(db, 'size', None), 'afterwards: ')
    H.reach('afterwards')


def late(H, kind, maxop):
    """a pack appears while the database is open; the refresh that should find it fails"""
    objs = build(H, kind)
    db = opened(H, kind)
    ask(db, 'has', WHOLE)
    H.settle(True)
    w = H.src('aq', 8)
    H.put('objects/pack/pack-2.pack', b'PACK' + lib.u32(2) + lib.u32(1) + bytes([0x28]) + H.zstream('zq', [('stored', w)]) + b'T' * 20)
    H.put('objects/pack/pack-2.idx', lib.index_v2(H, [LATE], [0], [12]))
    known = dict(objs)
    objs[LATE] = (b'tree', w, 8)
    force = H.bit('force')
    H.fault(H.int('at', 1, maxop), span=H.int('span', 1, 4), maps=True)
    res, exc = H.catch(db.update_cache, force)
    used = H.nofault()
    H.check(exc is None or used, 'nothing fails by itself')
    H.reach('reported' if exc is not None else 'despite' if used else 'answered')
    if exc is not None:
        res = exc = None
        gc.collect()
        # what it knew before is still there
        if H.bit('ask'):
            for x in sorted(known):
                if x != ALT:
                    right(H, known, 'stream', x, ask(db, 'stream', x), 'after a failed refresh: ')
        again = H.pick('again', [True, False])
        db.update_cache(again)
    for w in ('has', 'info', 'stream', 'partial'):
        for x in sorted(objs) + ([NONE] if w != 'partial' else []):
            if x != ALT or not used:
                right(H, objs, w, x, ask(db, w, x), 'afterwards: ')
    if not used:
        right(H, objs, 'ids', None, ask(db, 'ids', None), 'afterwards: ')
        right(H, objs, 'size', None, ask(db, 'size', None), 'afterwards: ')
    H.reach('afterwards')


LATE = b'\x66' * 20


def cases(tier):
    out = []
    for kind in ('loose', 'packed', 'git'):
        for what in ('has', 'info', 'stream', 'partial', 'ids', 'size', 'refresh', 'open'):
            for warm in ((False, True) if what in ('has', 'info', 'stream') else (False,)):
                out.append(dict(name='%s-%s%s' % (kind, what, '-warm' if warm else ''), fn=failing, params=dict(kind=kind, what=what, warm=warm, maxop=16),
                                bounds='3 loose, alternate and packed objects of up to 2000 bytes, every run of up to 4 failing calls', max_steps=20000))
    for kind in ('packed', 'git'):
        out.append(dict(name='%s-late' % kind, fn=late, params=dict(kind=kind, maxop=16), max_steps=20000,
                        bounds='a pack appears, the refresh meets any run of up to 4 failing calls, the next one, forced or not, none'))
    return out
