"""C15: alternates follow the alternates file."""
import os

from harness.c13 import ids, put_loose, put_pack, CONTENT

ASSUMPTIONS = ['the alternates file names absolute directories, in one spelling each, whose names have no white space of ASCII at their ends and no line feeds in them',
               'which entries it has, in which order, with which white space, and which directories exist before and after a '
               'change, are symbolic']


# one name starts with another one; one has letters outside of ASCII, a blank, a byte that is no UTF-8 and a separator of unicode
NAMES = ['alt', 'alt\u00e4 \u4e2d\udcff\u2028x\u00a0', 'alt1', 'missing', 'alt-4']


def alt(H, i):
    return H.root + '/' + NAMES[i]


def make(H, i, fam, how):
    """object directory number i with object i"""
    if how == 'empty':
        H.mkdir(NAMES[i])
    elif how == 'pack':
        H.mkdir(NAMES[i] + '/pack')
        put_pack(H, NAMES[i] + '/pack/pack-%d' % i, [i], fam)
    else:
        H.mkdir(NAMES[i] + '/pack')
        put_loose(H, NAMES[i], i, fam[i])


def lines(H, tag, n, dirs, blanks):
    """(file contents or None, directories named)"""
    k = H.pick(tag + '.lines', list(range(-1, n + 1)))
    if k < 0:
        return None, []
    out, named = '', []
    for j in range(k):
        d = H.pick('%s.%d' % (tag, j), list(range(dirs + (1 if blanks else 0))))
        if d == dirs:
            out += H.pick('%s.%d.b' % (tag, j), ['\n', '  \n'])
            continue
        named.append(d)
        form = H.pick('%s.%d.f' % (tag, j), ['%s\n', ' %s \n', '%s\r\n']) if blanks else '%s\n'
        out += form % alt(H, d)
    if blanks and out and H.bit(tag + '.nonl'):
        out = out.rstrip('\r\n')
    return out, named


def judge(H, rdb, named, exist, fam, kinds):
    from gitdb.exc import BadObject
    want = {alt(H, d) for d in named if d in exist}
    got = [db.root_path() for db in rdb.databases()]
    H.check(len(got) == len(set(got)), 'every directory is there once')
    H.check(set(got) == want, 'the database consists of exactly the usable directories the file names')
    for i, s in enumerate(fam):
        there = i in exist and i in named and kinds[i] != 'empty'
        H.check(rdb.has_object(s) == there, 'exactly the objects of the alternates are found')
        res, exc = H.catch(rdb.stream, s)
        if exc is not None and not isinstance(exc, BadObject):
            raise exc
        H.check((exc is None) == there, 'exactly the objects of the alternates are served')
        if exc is None:
            H.eq(res.read(), CONTENT[i], 'data')
            H.reach('served')


def follow(H, n, dirs, rounds, blanks, change):
    from gitdb.db import ReferenceDB
    fam = ids(dirs)
    kinds = (['loose', 'pack', 'empty'] * 2)[:dirs]
    exist = {i for i in range(dirs) if not change or H.bit('exist%d' % i)}
    for i in exist:
        make(H, i, fam, kinds[i])
    H.mkdir('info')
    data, named = lines(H, 'a', n, dirs + (0 if change else 1), blanks)
    if data is not None:
        H.put('info/alternates', os.fsencode(data))
    rdb = ReferenceDB(H.root + '/info/alternates')
    if not change or H.bit('look'):
        judge(H, rdb, named, exist, fam, kinds)
    for r in range(rounds):
        H.settle()
        if change:
            now = {i for i in range(dirs) if H.bit('exist%d.%d' % (r, i))}
            for i in range(dirs):
                if i in now and i not in exist:
                    make(H, i, fam, kinds[i])
                elif i in exist and i not in now:
                    H.rmtree(NAMES[i])
            exist = now
        if not H.bit('same%d' % r):
            was = data
            data, named = lines(H, 'bc'[r], n, dirs + (0 if change else 1), blanks)
            if data is not None:
                H.put('info/alternates', os.fsencode(data))
            elif was is not None:
                H.unlink('info/alternates')
        # the file is read again whether the refresh is forced or not
        res, exc = H.catch(rdb.update_cache, change or H.bit('force%d' % r))
        if exc is not None:
            H.fail('a refresh does not fail', '%s: %s' % (type(exc).__name__, exc))
        judge(H, rdb, named, exist, fam, kinds)
        H.reach('refreshed')


def nested(H, depth):
    """alternates of alternates, through git databases"""
    from gitdb.db import GitDB
    from gitdb.exc import BadObject
    fam = ids(depth + 1)
    have = []
    for i in range(depth + 1):
        H.mkdir(NAMES[i] + '/pack')
        have.append(H.pick('kind%d' % i, ['none', 'loose', 'pack']))
        if i < depth and have[i] != 'none':
            make(H, i, fam, have[i])
        link = i + 1 < depth and H.bit('link%d' % i)
        if link:
            H.put(NAMES[i] + '/info/alternates', os.fsencode(alt(H, i + 1) + '\n'))
        if not link:
            break
    last = i
    db = GitDB(alt(H, 0))
    for k in range(depth + 1):
        there = k <= last and k < depth and have[k] != 'none'
        res, exc = H.catch(db.stream, fam[k])
        if exc is not None and not isinstance(exc, BadObject):
            raise exc
        H.check((exc is None) == there, 'objects of alternates are found through the git database, no others are')
        H.check(db.has_object(fam[k]) == there, 'has_object agrees')
        if exc is None:
            H.eq(res.read(), CONTENT[k], 'data')
            H.reach('served')


def graph(H, dirs, n, top):
    """every way up to n entries per file can link some databases, cycles and links to oneself included"""
    from gitdb.db import GitDB, ReferenceDB
    from gitdb.exc import BadObject
    fam = ids(dirs + 1)
    links = []
    for i in range(dirs):
        H.mkdir(NAMES[i] + '/pack')
        make(H, i, fam, ['loose', 'pack'][i % 2])
        k = H.pick('n%d' % i, list(range(n + 1)))
        to = []
        for j in range(k):
            c = [d for d in range(dirs) if not to or d > to[-1]]
            if not c:
                break
            to.append(H.pick('to%d.%d' % (i, j), c))
        links.append(to)
        if to:
            H.put(NAMES[i] + '/info/alternates', os.fsencode(''.join(alt(H, d) + '\n' for d in to)))
    if top == 'git':
        db, want = H.within(200000, 'opening terminates', GitDB, alt(H, 0)), {0}
    else:
        db, want = ReferenceDB(alt(H, 0) + '/info/alternates'), set(links[0])
    todo = list(want)
    while todo:
        for d in links[todo.pop()]:
            if d not in want:
                want.add(d)
                todo.append(d)
    for r in range(2):
        for k in range(dirs + 1):
            H.check(H.within(200000, 'a query terminates', db.has_object, fam[k]) == (k in want),
                    'exactly the objects of the databases that can be reached are found')
            res, exc = H.catch(db.stream, fam[k])
            if exc is not None and not isinstance(exc, BadObject):
                raise exc
            H.check((exc is None) == (k in want), 'exactly the objects of the databases that can be reached are served')
            if exc is None:
                H.eq(res.read(), CONTENT[k], 'data')
                H.reach('served')
        have = H.within(200000, 'the enumeration terminates', lambda: list(db.sha_iter()))
        H.check(set(have) == {fam[k] for k in want}, 'the enumeration has exactly these objects')
        if not r:
            res, exc = H.catch(H.within, 200000, 'a refresh terminates', db.update_cache, True)
            if exc is not None:
                H.fail('a refresh does not fail', '%s: %s' % (type(exc).__name__, exc))
    H.reach('cycle' if any(i in l for i, l in enumerate(links)) else 'graph')


def cases(tier):
    big = tier != 'quick'
    out = []

    def add(nm, fn, bounds, **p):
        out.append(dict(name=nm, fn=fn, params=p, bounds=bounds, max_steps=30000))
    add('follow', follow, 'files of up to 3 entries over 2 directories and a missing one, 1 refresh', n=3, dirs=2, rounds=1, blanks=False, change=False)
    add('three', follow, 'files of up to 3 entries over 3 directories and a missing one', n=3, dirs=3, rounds=0, blanks=False, change=False)
    add('twice', follow, 'files of up to 1 entry, 2 refreshes', n=1, dirs=2, rounds=2, blanks=False, change=False)
    add('blanks', follow, 'entries with white space, empty lines, no final newline', n=2, dirs=1, rounds=0 if not big else 1, blanks=True, change=False)
    add('change', follow, 'directories appearing and vanishing, 1 refresh', n=2, dirs=2, rounds=1, blanks=False, change=True)
    add('nested', nested, 'alternates of alternates, %d deep' % (4 if big else 3), depth=3)
    add('graph', graph, '3 databases, up to %d alternates each, cycles included' % (2 if big else 1), dirs=3, n=2 if big else 1, top='git')
    add('loop', graph, '2 databases, up to 2 alternates each, cycles included', dirs=2, n=2, top='git')
    add('refloop', graph, '2 databases, up to 2 alternates each, cycles included, asked through the alternates of the first', dirs=2, n=2, top='ref')
    return out
