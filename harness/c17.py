"""C17: locked files are exclusive and replaced all-or-nothing."""
ASSUMPTIONS = ['one file system call fails, up to six in a row do, or the process dies before one call, possibly after part of a write; which one is symbolic',
               'nothing is claimed about the lock file when the call that removes it fails',
               'for two holders: every interleaving of their file system calls within the stated number of context switches']

F = 'dir/file'
L = 'dir/file.lock'


def setup(H, present):
    H.mkdir('dir')
    old = None
    if present:
        n = H.int('nold', 0, 1 << 20)
        old = H.src('old', n)
        H.put(F, old)
    return old


def payload(H, parts, name='w'):
    ws = []
    for i in range(parts):
        n = H.int('%s%d.n' % (name, i), 0, 1 << 20)
        ws.append(H.src('%s%d' % (name, i), n))
    return ws


def join(ws):
    out = b''
    for w in ws:
        out = out + w
    return out


def holds(H, want, label):
    """the file has these contents (None: it does not exist)"""
    if want is None:
        H.check(not H.exists(F), label + 'there is no file')
    else:
        H.check(H.exists(F), label + 'the file exists')
        H.eq(H.get(F), want, label + 'the file holds these bytes')


def put(fd, w, stream):
    import os
    if stream:
        fd.write(w)
        return
    while len(w):
        k = os.write(fd, w)
        w = w[k:]


def second_fails(H, form, label):
    """nobody else gets the lock"""
    from gitdb.util import LockedFD
    other = LockedFD(H.root + '/' + F)
    res, exc = H.catch(other.open, form == 'w')
    H.check(isinstance(exc, OSError), label + 'a second holder is refused')


def writing(H, parts, present, stream, end, twice):
    """lock, write, end it in one of the ways"""
    import os
    from gitdb.util import LockedFD
    old = setup(H, present)
    ws = payload(H, parts)
    lock = LockedFD(H.root + '/' + F)
    fd = lock.open(write=True, stream=stream)
    H.check(H.exists(L), 'the lock is taken')
    holds(H, old, 'while locked: ')
    other = H.pick('other', ['no', 'r', 'w'])
    for i, w in enumerate(ws):
        put(fd, w, stream)
        if i == 0 and other != 'no':
            second_fails(H, other, 'while locked: ')
            H.check(H.exists(L), 'a refused attempt leaves the lock alone')
            holds(H, old, 'after a refused attempt: ')
    if end == 'commit':
        lock.commit()
        want = join(ws)
    elif end == 'rollback':
        lock.rollback()
        want = old
    else:
        del lock, fd
        want = old
    if twice and end != 'del':
        if H.bit('again'):
            lock.commit()
        else:
            lock.rollback()
    holds(H, want, 'afterwards: ')
    H.check(not H.exists(L), 'the lock is released')
    H.check(H.files('dir') == (['file'] if want is not None else []), 'nothing else is left')
    H.check(H.fds() == 0, 'all descriptors are closed')
    # and can be taken again
    n = LockedFD(H.root + '/' + F)
    fd = n.open(write=True)
    n.rollback()
    H.check(not H.exists(L), 'the lock can be taken and released again')
    H.reach(end)


def reading(H, present, stream, end):
    import os
    from gitdb.util import LockedFD
    old = setup(H, present)
    lock = LockedFD(H.root + '/' + F)
    fd, exc = H.catch(lock.open, False, stream)
    if not present:
        H.check(isinstance(exc, OSError), 'a missing file can not be opened for reading')
        H.reach('missing')
    else:
        if exc is not None:
            raise exc
        H.check(H.exists(L), 'the lock is taken')
        second_fails(H, H.pick('other', ['r', 'w']), 'while reading: ')
        H.check(H.exists(L), 'a refused attempt leaves the lock alone')
        n = len(old)
        if n > 0:
            got = os.read(fd, n) if not stream else fd.read(n) if H.bit('sized') else fd.read()
            H.eq(got, old, 'the holder of a read lock reads the file')
        {'commit': lock.commit, 'rollback': lock.rollback, 'del': lambda: None}[end]()
    del lock, fd, exc
    holds(H, old, 'afterwards: ')
    H.check(not H.exists(L), 'the lock is released')
    H.check(H.fds() == 0, 'all descriptors are closed')


def failing(H, write, present, stream, short, end, maxop, span=None):
    """one call fails"""
    from gitdb.util import LockedFD
    old = setup(H, present)
    ws = payload(H, 1)
    H.fault(H.int('at', 1, maxop), H.int('short', 1, 1 << 20) if short else None, H.int('span', 2, span) if span else None)
    state = {'opened': False, 'wrote': False}

    def work():
        lock = LockedFD(H.root + '/' + F)
        fd = lock.open(write, stream)
        state['opened'] = True
        try:
            if write:
                put(fd, ws[0], stream)
            state['wrote'] = True
        except OSError:
            lock.rollback()
            raise
        if end == 'commit':
            lock.commit()
        else:
            lock.rollback()
    res, exc = H.catch(work)
    failed = H.fault_names()
    H.nofault()
    if 'remove' in failed or 'unlink' in failed:
        # the lock could not be removed, but the file is what it was, or what it was to become
        H.reach('release failed')
        now = H.get(F)
        if now is None:
            H.check(not present, 'the file stays')
        else:
            new = [H.same(now, ws[0])] if state['wrote'] and write and end == 'commit' else []
            H.check(H.any(*(new + ([H.same(now, old)] if present else []))), 'the file is the old or the new one')
        exc = None
        H.check(H.fds() == 0, 'all descriptors are closed')
        return
    if 'rename' in failed or 'replace' in failed:
        H.check(exc is not None, 'the failed commit is reported')
        holds(H, old, 'a failed commit: ')
    if exc is None:
        holds(H, join(ws) if write and end == 'commit' else old, 'success: ')
        H.reach('success')
    elif state['wrote'] and write and end == 'commit':
        # the commit was under way: old or new
        H.reach('failed commit')
        if H.exists(L):
            H.fail('the lock is released')
        now = H.get(F)
        if now is None:
            H.check(not present, 'a failed commit does not remove the file')
        else:
            H.check(H.any(H.same(now, ws[0]), H.same(now, old) if present else False), 'after a failed commit the file is the old or the new one')
    else:
        H.reach('failed')
        holds(H, old, 'failure: ')
    del exc
    H.check(not H.exists(L), 'the lock is released')
    H.check(H.fds() == 0, 'all descriptors are closed')


def dying(H, parts, present, end, maxop):
    from gitdb.util import LockedFD
    old = setup(H, present)
    ws = payload(H, parts)

    def work():
        lock = LockedFD(H.root + '/' + F)
        fd = lock.open(write=True)
        for w in ws:
            put(fd, w, False)
        if end == 'commit':
            lock.commit()
        else:
            lock.rollback()
    how = H.crashable(work, H.int('at', 1, maxop), H.int('cut', 0, 1 << 20))
    H.check(how != 'raised', 'nothing fails by itself')
    new = join(ws)
    now = H.get(F)
    if how == 'done':
        holds(H, new if end == 'commit' else old, 'done: ')
    elif now is None:
        H.check(not present, 'an existing file stays')
    else:
        c = [H.same(now, old)] if present else []
        if end == 'commit':
            c.append(H.same(now, new))
        H.check(H.any(*c), 'the file holds the old or the complete new contents')
        H.reach('crashed')


def two(H, modes, present, switches):
    """two holders at the same time"""
    from gitdb.util import LockedFD
    old = setup(H, present)
    ws = [payload(H, 1, 'x')[0], payload(H, 1, 'y')[0]]
    inside = [0]
    ends = [H.bit('commit0'), H.bit('commit1')]

    def actor(i):
        def work():
            lock = LockedFD(H.root + '/' + F)
            fd = lock.open(modes[i] == 'w')
            inside[0] += 1
            H.check(inside[0] == 1, 'at most one holder at any time')
            if modes[i] == 'w':
                put(fd, ws[i], False)
            H.check(inside[0] == 1, 'at most one holder at any time')
            inside[0] -= 1
            if ends[i]:
                lock.commit()
            else:
                lock.rollback()
            return True
        return work
    res = H.schedule(actor(0), actor(1), switches)
    won = []
    for i, (r, e) in enumerate(res):
        if e is not None:
            if not isinstance(e, OSError):
                raise e
            H.reach('refused')
        else:
            won.append(i)
    H.check(len(won) >= 1 or (not present and 'r' in modes), 'one of them gets the lock')
    H.check(not H.exists(L), 'the lock is released')
    now = H.get(F)
    poss = [i for i in won if modes[i] == 'w' and ends[i]]
    if not poss:
        holds(H, old, 'nobody wrote: ')
    else:
        H.check(now is not None, 'the file exists')
        H.check(H.any(*[H.same(now, ws[i]) for i in poss]), 'the file holds what one holder wrote')
        H.reach('written')


def pair(H, names):
    """two different files locked at the same time"""
    import os
    from gitdb.util import LockedFD
    a, b = H.pick('a', names), H.pick('b', names)
    H.assume(a != b)
    H.mkdir('dir')
    H.mkdir('sub')
    olds, news, fds, locks, modes, ends = [], [], [], [], [], []
    for i, f in enumerate((a, b)):
        n = H.int('nold%d' % i, 1, 1 << 20)
        olds.append(H.src('old%d' % i, n))
        H.put(f, olds[-1])
        news.append(H.src('new%d' % i, H.int('nnew%d' % i, 0, 1 << 20)))
        modes.append(H.bit('write%d' % i))
        ends.append(H.bit('commit%d' % i))
    for i, f in enumerate((a, b)):
        locks.append(LockedFD(H.root + '/' + f))
        fds.append(locks[i].open(write=bool(modes[i])))
    for i in (1, 0):
        if modes[i]:
            put(fds[i], news[i], False)
        else:
            H.eq(os.read(fds[i], len(olds[i])), olds[i], 'the holder of a read lock reads the file')
    for i in ((0, 1) if H.bit('order') else (1, 0)):
        if ends[i]:
            locks[i].commit()
        else:
            locks[i].rollback()
    for i, f in enumerate((a, b)):
        H.eq(H.get(f), news[i] if modes[i] and ends[i] else olds[i], 'each file holds what its holder wrote')
    H.check(sorted(H.files('dir') + ['../sub/' + x for x in H.files('sub')]) == sorted(f[4:] if f[0] == 'd' else '../' + f for f in (a, b)),
            'nothing else is left')
    H.reach('both')


def cases(tier):
    big = tier != 'quick'
    out = []

    def add(nm, fn, bounds, **p):
        out.append(dict(name=nm, fn=fn, params=p, bounds=bounds, max_steps=20000))
    for present in (False, True):
        s = '-old' if present else '-new'
        for end in ('commit', 'rollback', 'del'):
            for stream in (False, True):
                add('write-%s%s%s' % (end, s, '-stream' if stream else ''), writing, 'two writes of any length, a competing attempt, ended by %s' % end, parts=2, present=present, stream=stream, end=end, twice=True)
                add('read-%s%s%s' % (end, s, '-stream' if stream else ''), reading, 'reading a file of any length, a competing attempt, ended by %s' % end, present=present, stream=stream, end=end)
        for end in ('commit', 'rollback'):
            for write in (False, True):
                for stream in (False, True) if write else (False,):
                    for short in (False, True) if write and stream else (False,):
                        add('fail-%s-%s%s%s%s' % ('w' if write else 'r', end, s, '-stream' if stream else '', '-short' if short else ''), failing, 'every single failing call', write=write, present=present, stream=stream,
                            short=short, end=end, maxop=8)
                        add('burst-%s-%s%s%s%s' % ('w' if write else 'r', end, s, '-stream' if stream else '', '-short' if short else ''), failing, 'up to 6 failing calls in a row', write=write, present=present,
                            stream=stream, short=short, end=end, maxop=8, span=6)
            add('die-%s%s' % (end, s), dying, 'death before every call and within every write', parts=2, present=present, end=end, maxop=9)
    for modes in ('ww', 'wr', 'rr'):
        add('two-' + modes, two, 'two holders, every interleaving of their calls with up to %d context switches' % (6 if big else 4), modes=modes, present=True, switches=6 if big else 4)
    add('two-ww-new', two, 'two holders, every interleaving', modes='ww', present=False, switches=6 if big else 4)
    names = ['dir/file', 'dir/file.txt', 'dir/fileoc', 'sub/file'] + (['dir/FILE', 'dir/file.lock.x', 'dir/.file', 'sub/file.txt'] if big else [])
    add('pair', pair, 'two different files locked at the same time, read or written, names out of %s' % names, names=names)
    return out
