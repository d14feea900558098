"""C12: abbreviated ids resolve to the one matching object or fail."""
from harness import lib

ASSUMPTIONS = ['abbreviations are 3 to 40 hexadecimal digits, with all letters in lower case or all in upper case',
               'database cases use a fixed family of ids with shared prefixes; which of them are stored where, and the '
               'abbreviation itself, are symbolic']


def matches(H, sha, part, length):
    """does the id start with the given number of hex digits of part?"""
    full = length // 2
    c = [sha[:full] == part[:full]]
    if length % 2:
        c.append((sha[full] >> 4) == (part[full] >> 4))
    return H.all(*c)


def hexdigits(H, name, length, upper=False):
    s = H.cells(name, length, 48, 70 if upper else 102)
    for i in range(length):
        H.assume(H.any(s[i] <= 57, s[i] >= (65 if upper else 97)))
    return s


def judge(H, res, exc, hits, shas, ident):
    """hits: one condition per distinct object"""
    from gitdb.exc import AmbiguousObjectName, BadObject
    n = 0
    for h in hits:
        n = n + H.ite(h, 1, 0)
    if exc is not None and not isinstance(exc, (AmbiguousObjectName, BadObject)):
        raise exc
    if isinstance(exc, AmbiguousObjectName):
        H.reach('ambiguous')
        H.check(n >= 2, 'reported ambiguous only if two different objects match')
    elif exc is not None or res is None:
        H.reach('missing')
        H.check(n == 0, 'reported missing only if no object matches')
    else:
        H.reach('one')
        H.check(n == 1, 'an id is returned only if exactly one object matches')
        H.check(H.all(*[H.implies(h, ident(res, i)) for i, h in enumerate(hits)]), 'the id returned is the one that matches')


def index(H, version, n, length, free):
    """one index; every content"""
    from gitdb.pack import PackIndexFile
    shas = lib.sorted_shas(H, n)
    if version == 2:
        data = lib.index_v2(H, shas, [0] * n, [12] * n)
    else:
        data = lib.index_v1(H, shas, [12] * n)
    part = H.cells('part', (length + 1) // 2)
    if length % 2:
        H.assume((part[length // 2] & 15) == 0)
    idx = PackIndexFile(H.put('x.idx', data))
    res, exc = H.catch(idx.partial_sha_to_index, part, length)
    judge(H, res, exc, [matches(H, s, part, length) for s in shas], shas, lambda r, i: r == i)


def family(n):
    """ids with shared prefixes of 1, 3, 4, 5 and 39 digits"""
    h = ['abcde' + '0' * 35, 'abcdf' + '1' * 35, 'abce' + '2' * 36, 'abce' + '2' * 35 + '3', 'abd0' + '4' * 36, 'ff00' + '5' * 36,
         '0000' + '6' * 36, 'ffff' + '7' * 36]
    return [bytes.fromhex(x) for x in h[:n]]


def write_pack(H, rel, shas):
    shas = sorted(shas)
    H.put(rel + '.pack', b'PACK' + lib.u32(2) + lib.u32(len(shas)) + b'\0' * 20)
    H.put(rel + '.idx', lib.index_v2(H, shas, [0] * len(shas), [12] * len(shas)))


def write_loose(H, rel, shas):
    H.mkdir(rel) if rel else None
    for s in shas:
        x = s.hex()
        H.put((rel + '/' if rel else '') + x[:2] + '/' + x[2:], b'z')


def symbin(H, hexs, length):
    """the nibbles of symbolic digits"""
    v = []
    for i in range(length):
        c = hexs[i]
        v.append(H.ite(c <= 57, c - 48, H.ite(c <= 70, c - 55, c - 87)))
    return v


def hexmatch(H, sha, nibbles):
    x = sha.hex()
    return H.all(*[v == int(x[i], 16) for i, v in enumerate(nibbles)])


def packed(H, n, packs, length):
    """a packed database over several packs"""
    from gitdb.db import PackedDB
    fam = family(n)
    where = [[] for _ in range(packs)]
    present = []
    for i, s in enumerate(fam):
        got = False
        for p in range(packs):
            if H.bit('in%d.%d' % (i, p)):
                where[p].append(s)
                got = True
        if got:
            present.append(s)
    for p in range(packs):
        write_pack(H, 'pack-%d' % p, where[p])
    part = H.cells('part', (length + 1) // 2)
    if length % 2:
        H.assume((part[length // 2] & 15) == 0)
    db = PackedDB(H.root)
    res, exc = H.catch(db.partial_to_complete_sha, part, length)
    judge(H, res, exc, [matches(H, s, part, length) for s in present], present,
          lambda r, i: bytes(r) == present[i])


def loose(H, n, length, text, upper=False):
    from gitdb.db import LooseObjectDB
    fam = family(n)
    present = [s for i, s in enumerate(fam) if H.bit('in%d' % i)]
    write_loose(H, '', present)
    q = hexdigits(H, 'part', length, upper)
    nib = symbin(H, q, length)
    db = LooseObjectDB(H.root)
    res, exc = H.catch(db.partial_to_complete_sha_hex, q.decode('ascii') if text else q)
    judge(H, res, exc, [hexmatch(H, s, nib) for s in present], present, lambda r, i: bytes(r) == present[i])


def git(H, n, length, text, alt, upper=False):
    """a git database: two packs, loose objects and an alternate"""
    from gitdb.db import GitDB
    fam = family(n)
    parts = ['pack0', 'loose', 'altpack' if alt else 'pack1']
    where = {p: [] for p in parts}
    present = []
    for i, s in enumerate(fam):
        got = False
        for p in parts:
            if H.bit('in%d.%s' % (i, p)):
                where[p].append(s)
                got = True
        if got:
            present.append(s)
    H.mkdir('git')
    write_loose(H, 'git', where['loose'])
    write_pack(H, 'git/pack/pack-0', where['pack0'])
    if alt:
        write_pack(H, 'alt/pack/pack-2', where['altpack'])
        H.put('git/info/alternates', (H.root + '/alt\n').encode())
    else:
        write_pack(H, 'git/pack/pack-1', where['pack1'])
    q = hexdigits(H, 'part', length, upper)
    nib = symbin(H, q, length)
    db = GitDB(H.root + '/git')
    res, exc = H.catch(db.partial_to_complete_sha_hex, q.decode('ascii') if text else q)
    judge(H, res, exc, [hexmatch(H, s, nib) for s in present], present, lambda r, i: bytes(r) == present[i])


def twins(H, kind, length):
    """two ids that first differ at any of their digits, in any places"""
    from gitdb.db import GitDB, LooseObjectDB, PackedDB
    base = '5a' * 20
    d = H.pick('digit', [0, 2, 3, 4, 7, 8, 15, 16, 24, 38, 39])
    fam = [bytes.fromhex(base), bytes.fromhex(base[:d] + H.pick('other', '0f') + base[d + 1:])]
    parts = {'loose': ['loose'], 'packed': ['pack0', 'pack1'], 'git': ['pack0', 'loose', 'alt']}[kind]
    where = {p: [] for p in parts}
    for i, s in enumerate(fam):
        where[H.pick('in%d' % i, parts)].append(s)
    H.mkdir('git/pack')
    H.mkdir('alt')
    for p, l in where.items():
        if p == 'loose':
            write_loose(H, 'git', l)
        elif p == 'alt':
            write_loose(H, 'alt', l)
            H.put('git/info/alternates', (H.root + '/alt\n').encode())
        else:
            write_pack(H, 'git/pack/pack-' + p, l)
    q = (base if H.bit('first') else fam[1].hex())[:length]
    hits = [s.hex().startswith(q) for s in fam]
    if H.bit('upper'):
        q = q.upper()
    if kind == 'packed':
        res, exc = H.catch(PackedDB(H.root + '/git/pack').partial_to_complete_sha, bytes.fromhex(q + '0' * (length % 2)), length)
    else:
        db = (GitDB if kind == 'git' else LooseObjectDB)(H.root + '/git')
        res, exc = H.catch(db.partial_to_complete_sha_hex, q if H.bit('text') else q.encode())
    judge(H, res, exc, hits, fam, lambda r, i: bytes(r) == fam[i])


def anyids(H, git, length):
    """two packs with one id each, of any content"""
    from gitdb.db import GitDB, PackedDB
    fam = [H.cells('a', 20), H.cells('b', 20)]
    H.mkdir('git/pack')
    for i, rel in enumerate(('git/pack/pack-0', 'alt/pack/pack-1' if git else 'git/pack/pack-1')):
        H.put(rel + '.pack', b'PACK' + lib.u32(2) + lib.u32(1) + b'\0' * 20)
        H.put(rel + '.idx', lib.index_v2(H, [fam[i]], [0], [12]))
    if git:
        H.put('git/info/alternates', (H.root + '/alt\n').encode())
        q = hexdigits(H, 'part', length)
        nib = symbin(H, q, length)
        hits = []
        for s in fam:
            full = length // 2
            c = [s[i] == nib[2 * i] * 16 + nib[2 * i + 1] for i in range(full)]
            if length % 2:
                c.append((s[full] >> 4) == nib[length - 1])
            hits.append(H.all(*c))
        res, exc = H.catch(GitDB(H.root + '/git').partial_to_complete_sha_hex, q)
    else:
        part = H.cells('part', (length + 1) // 2)
        if length % 2:
            H.assume((part[length // 2] & 15) == 0)
        hits = [matches(H, s, part, length) for s in fam]
        res, exc = H.catch(PackedDB(H.root + '/git/pack').partial_to_complete_sha, part, length)
    same = fam[0] == fam[1]
    judge(H, res, exc, [hits[0], H.all(hits[1], H.no(same))], fam, lambda r, i: r == fam[i])


def printed(H, kind):
    """the error for a missing object can be shown"""
    from gitdb.db import LooseObjectDB, GitDB, PackedDB
    from gitdb.exc import BadObject
    fam = family(3)
    H.mkdir('git/pack')
    write_loose(H, 'git', fam[:1] if H.bit('loose') else [])
    write_pack(H, 'git/pack/pack-0', fam[1:2] if H.bit('pack') else [])
    length = H.conc(H.int('length', 4 if kind == 'packed' else 3, 40))
    q = ('e' + '7' * 39)[:length]
    if kind == 'packed':
        db = PackedDB(H.root + '/git/pack')
        res, exc = H.catch(db.partial_to_complete_sha, bytes.fromhex(q + '0' * (length % 2)), length)
    else:
        db = (LooseObjectDB if kind == 'loose' else GitDB)(H.root + '/git')
        res, exc = H.catch(db.partial_to_complete_sha_hex, q if H.bit('text') else q.encode())
    H.check(isinstance(exc, BadObject), 'a missing object is reported as such')
    shown, broken = H.catch(str, exc)
    H.check(broken is None, 'the report can be printed')
    H.reach('printed')


def cases(tier):
    big = tier != 'quick'
    out = []
    for v in (1, 2):
        for n in (0, 1, 2, 3, 4) if big else (0, 1, 2, 3) if v == 2 else (2,):
            for length in ((3, 4, 5, 6, 7, 20, 39, 40) if big else (3, 4, 7, 40) if n == 2 and v == 2 else (3, 4)):
                out.append(dict(name='idx-v%d-n%d-%d' % (v, n, length), fn=index, mode='bv',
                                params=dict(version=v, n=n, length=length, free=True),
                                bounds='version %d, %d ids of any content, every %d-digit abbreviation' % (v, n, length)))
    for length in ((3, 4, 5, 39, 40) if big else (3, 4, 5, 40)):
        out.append(dict(name='packed-%d' % length, fn=packed, mode='bv', params=dict(n=4 if big else 3, packs=2, length=length),
                        bounds='every placement of %d ids over 2 packs, every %d-digit abbreviation' % (4 if big else 3, length)))
    for length in ((3, 4, 5, 6, 39, 40) if big else (3, 4, 5, 40)):
        out.append(dict(name='loose-%d' % length, fn=loose, mode='bv', params=dict(n=6 if big else 5, length=length, text=length % 2 == 0),
                        bounds='every subset of %d loose ids, every %d-digit abbreviation' % (6 if big else 5, length)))
    for length in ((3, 4, 5, 39, 40) if big else (3, 4, 5)):
        for alt in (False, True):
            out.append(dict(name='git-%d%s' % (length, '-alt' if alt else ''), fn=git, mode='bv', weight=2.0,
                            params=dict(n=3 if big else 2, length=length, text=length % 2 == 1, alt=alt),
                            bounds='every placement of %d ids over pack, loose and %s, every %d-digit abbreviation' %
                                   (3 if big else 2, 'alternate' if alt else 'second pack', length)))
    for length in ((3, 4, 5, 39) if big else (4, 5)):
        out.append(dict(name='loose-upper-%d' % length, fn=loose, mode='bv', params=dict(n=3, length=length, text=length % 2 == 0, upper=True),
                        bounds='every subset of 3 loose ids, every %d-digit abbreviation in upper case' % length))
        if not big:
            continue
        out.append(dict(name='git-upper-%d' % length, fn=git, mode='bv', params=dict(n=2, length=length, text=length % 2 == 1, alt=False, upper=True),
                        bounds='every placement of 2 ids over two packs and loose, every %d-digit abbreviation in upper case' % length))
    for kind in ('loose', 'packed', 'git'):
        for length in ((3, 4, 8, 15, 16, 39, 40) if big else (4, 15, 39)):
            out.append(dict(name='twins-%s-%d' % (kind, length), fn=twins, params=dict(kind=kind, length=length),
                            bounds='two ids that first differ at one of 11 digits, in any places, %d-digit abbreviations of either' % length))
    for kind in ('loose', 'packed', 'git'):
        out.append(dict(name='printed-' + kind, fn=printed, params=dict(kind=kind), bounds='the error for any absent name of 3 to 40 digits'))
    for git_ in (False, True):
        for length in ((3, 4, 8, 17, 39) if big else (4, 17)):
            out.append(dict(name='anyids-%s-%d' % ('git' if git_ else 'packed', length), fn=anyids, mode='bv', params=dict(git=git_, length=length),
                            bounds='two packs%s with one id of any content each, any %d-digit abbreviation' % (' (one of an alternate)' if git_ else '', length)))
    return out
