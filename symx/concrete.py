"""Concrete side: runs harness bodies against the real, unmodified code of the repository.
Reads a JSON list of jobs on stdin, writes one JSON line per job.  Every job runs in a forked
child inside a scratch directory, with a time limit."""
import builtins
import codecs
import errno
import gc
import glob
import hashlib
import importlib
import io
import json
import mmap
import os
import resource
import select
import shutil
import signal
import sys
import tempfile
import threading
import time
import traceback
import zlib

sys.dont_write_bytecode = True
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('GITDB_REPO', '/repo')
sys.path.insert(0, VERIF)
sys.path.insert(0, REPO)

import smmap            # noqa  (before the interposition below)
from symx.inputs import mat_src, build_real     # noqa


class Stop(BaseException):
    pass


class Skip(BaseException):
    pass


# ------------------------------------------------------------------ interposition
class FS:
    root = None
    ops = 0
    fault = None
    crash_at = None
    crash_cut = 0
    sched = None
    temps = set()
    fds = {}
    active = False


R = {n: getattr(os, n) for n in ('open', 'close', 'read', 'write', 'fsync', 'ftruncate', 'rename', 'replace', 'link',
                                 'remove', 'unlink', 'mkdir', 'makedirs', 'rmdir', 'chmod', 'stat', 'listdir', 'walk',
                                 'scandir')}
depth = threading.local()


def nested():
    return getattr(depth, 'n', 0) > 0


class Nest:
    def __enter__(self):
        depth.n = getattr(depth, 'n', 0) + 1

    def __exit__(self, *a):
        depth.n -= 1


def mine(p):
    if not FS.active or FS.root is None:
        return False
    try:
        p = os.fspath(p)
    except TypeError:
        return False
    return isinstance(p, str) and (p == FS.root or p.startswith(FS.root + '/'))


def private(fd):
    """nobody else can know of the file yet: it still has the random name mkstemp gave it"""
    p = FS.fds[fd]
    if p not in FS.temps or os.path.basename(p).startswith('pack-'):
        return False
    with Nest():
        try:
            a, b = os.fstat(fd), R['stat'](p)
        except FileNotFoundError:
            return False
    return a.st_nlink == 1 and a.st_ino == b.st_ino


def op(name, writing=None, quiet=False):
    """returns None or ('short', missing bytes)"""
    if FS.sched is not None and not quiet:
        FS.sched.point(name)
    FS.ops += 1
    if FS.crash_at is not None and FS.crash_at == FS.ops:
        if writing is not None:
            fd, data = writing
            R['write'](fd, bytes(data)[:FS.crash_cut])
        os._exit(99)
    f = FS.fault
    if f is not None and (not f['used'] and f['at'] == FS.ops if f['span'] is None else f['at'] <= FS.ops < f['at'] + f['span']):
        if not f['used']:
            f['name'] = name
        f['used'] = True
        f['names'].append(name)
        if writing is not None and f['short'] is not None:
            n = len(writing[1])
            if n > 0:
                return ('short', f['short'])
            return None
        raise OSError(errno.EIO, 'injected fault', name)
    return None


def smmap_caller():
    f = sys._getframe(2)
    return f.f_globals.get('__name__', '').startswith('smmap')


DEVICE = ('rename', 'replace', 'link')


def wrap_path(name, real=None):
    device = real is None and name in DEVICE
    real = real or R[name]

    def f(path, *a, **k):
        if device and a and not nested() and mine(path) != mine(a[0]) and not smmap_caller() and FS.active:
            raise OSError(errno.EXDEV, 'Invalid cross-device link', path)      # temporary files live on another device
        if not mine(path) or nested() or smmap_caller():
            return real(path, *a, **k)
        op(name)
        with Nest():
            return real(path, *a, **k)
    f.__name__ = name
    return f


def skipping(fd):
    return FS.sched is not None and FS.sched.skip and private(fd)


def w_open(path, flags, *a, **k):
    if FS.fault is not None and FS.fault['maps'] and mine(path) and not nested() and smmap_caller():
        op('open')
        return R['open'](path, flags, *a, **k)
    if not mine(path) or nested() or smmap_caller():
        return R['open'](path, flags, *a, **k)
    op('open')
    fd = R['open'](path, flags, *a, **k)
    FS.fds[fd] = path
    return fd


def w_close(fd):
    if fd not in FS.fds or nested():
        FS.fds.pop(fd, None)
        return R['close'](fd)
    quiet = skipping(fd)
    del FS.fds[fd]
    R['close'](fd)
    op('close', quiet=quiet)


def w_read(fd, n):
    if fd in FS.fds and not nested():
        op('read', quiet=skipping(fd))
    return R['read'](fd, n)


def w_write(fd, data):
    if fd in FS.fds and not nested():
        r = op('write', (fd, data), skipping(fd))
        if r is not None:
            b = bytes(data)
            b = b[:max(0, len(b) - r[1])]
            if b:
                R['write'](fd, b)
            return len(b)
    return R['write'](fd, data)


def w_fsync(fd):
    if fd in FS.fds and not nested():
        op('fsync', quiet=skipping(fd))
    return R['fsync'](fd)


def look(name, real):
    def f(path, *a, **k):
        if FS.sched is not None and mine(path) and not nested() and (name == 'stat' or not smmap_caller()):
            FS.sched.point(name)
            with Nest():
                return real(path, *a, **k)
        return real(path, *a, **k)
    return f


_mkstemp = tempfile.mkstemp


def w_mkstemp(suffix=None, prefix=None, dir=None, text=False):
    if dir is None or not mine(dir) or nested():
        return _mkstemp(suffix, prefix, dir, text)
    op('mkstemp')
    with Nest():
        fd, p = _mkstemp(suffix, prefix, dir, text)
    FS.fds[fd] = p
    FS.temps.add(p)
    return fd, p


_mmap = mmap.mmap


class MmapMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, _mmap)


class w_mmap(metaclass=MmapMeta):
    def __new__(cls, fd, *a, **k):
        if fd in FS.fds and not nested():
            op('mmap')
        return _mmap.__new__(_mmap, fd, *a, **k)


_open = builtins.open


class File:
    """a file object; its calls count like in the model: one to open, one to read it, one to close it"""
    def __init__(self, f):
        self._f = f
        self._seen = False

    def _reading(self):
        if not self._seen:
            self._seen = True
            op('read')

    def read(self, *a):
        self._reading()
        return self._f.read(*a)

    def readline(self, *a):
        self._reading()
        return self._f.readline(*a)

    def readlines(self, *a):
        self._reading()
        return self._f.readlines(*a)

    def __iter__(self):
        self._reading()
        return iter(self._f)

    def close(self):
        if not self._f.closed:
            self._f.close()
            op('close')

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def __getattr__(self, name):
        return getattr(self._f, name)


def w_bopen(path, mode='r', *a, **k):
    if isinstance(path, int) or not mine(path) or nested() or smmap_caller() or set(mode) & set('wax+'):
        return _open(path, mode, *a, **k)
    op('open')
    return File(_open(path, mode, *a, **k))


def install():
    for n in ('rename', 'replace', 'link', 'remove', 'unlink', 'mkdir', 'makedirs', 'rmdir', 'chmod'):
        setattr(os, n, wrap_path(n))
    os.open, os.close, os.read, os.write, os.fsync = w_open, w_close, w_read, w_write, w_fsync
    os.stat = look('stat', os.stat)
    os.listdir = look('listdir', os.listdir)
    os.walk = look('walk', os.walk)
    os.scandir = look('scandir', os.scandir)
    for n in ('exists', 'isfile', 'isdir', 'lexists'):
        setattr(os.path, n, look(n, getattr(os.path, n)))
    builtins.open = w_bopen
    io.open = w_bopen
    glob.glob = look('glob', glob.glob)
    tempfile.mkstemp = w_mkstemp
    shutil.move = wrap_path('rename', shutil.move)
    mmap.mmap = w_mmap


class Scheduler:
    def __init__(self, pick, limit):
        self.pick, self.limit, self.n = pick, limit, 0
        self.cv = threading.Condition()
        self.turn = 0
        self.alive = [True, True]
        self.cur = threading.local()
        self.exc = [None, None]
        self.res = [None, None]
        self.watch = None
        self.skip = False

    def point(self, name):
        i = getattr(self.cur, 'i', None)
        if i is None:
            return
        self.n += 1
        if self.watch is not None:
            self.watch()
        if self.alive[1 - i] and self.n <= self.limit:
            nxt = self.pick(self.n, i)
            if nxt != i:
                with self.cv:
                    self.turn = nxt
                    self.cv.notify_all()
                    while self.turn != i and self.alive[1 - i]:
                        self.cv.wait()
                    self.turn = i

    def run(self, f0, f1):
        def body(i, f):
            self.cur.i = i
            with self.cv:
                while self.turn != i and self.alive[1 - i]:
                    self.cv.wait()
                self.turn = i
            try:
                self.res[i] = f()
            except BaseException as e:      # noqa
                self.exc[i] = e
            with self.cv:
                self.alive[i] = False
                self.turn = 1 - i
                self.cv.notify_all()
        ts = [threading.Thread(target=body, args=(i, f)) for i, f in ((0, f0), (1, f1))]
        self.turn = self.pick(0, 0)
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        for e in self.exc:
            if isinstance(e, (Stop, Skip)):
                raise e
        return self.res, self.exc


# ------------------------------------------------------------------ harness interface
class H:
    symbolic = False

    def __init__(self, inputs, root):
        self.inputs = inputs
        self.root = root
        self.trail = []
        self.fails = []

    def _in(self, name, default=None):
        if name in self.inputs:
            return self.inputs[name]
        return default

    def int(self, name, lo, hi):
        v = self._in(name, lo)
        if not lo <= v <= hi:
            raise Skip('input %s out of range' % name)
        return v

    def flag(self, name):
        return self.int(name, 0, 1) == 1

    bit = flag

    def pick(self, name, options):
        return options[self.int(name, 0, len(options) - 1)]

    def conc(self, x):
        return x

    def src(self, name, n):
        spec = self._in(name) or {'n': n, 'p': []}
        return mat_src(name, {'n': n, 'p': spec['p']})

    def known(self, name, b):
        return bytes(b)

    def cells(self, name, n, lo=0, hi=255):
        v = self._in(name)
        return bytes.fromhex(v) if v is not None else bytes([lo]) * n

    def table(self, n, fn):
        return [fn(i) for i in range(n)]

    def zstream(self, name, parts):
        if any(p[0] in ('stored', 'last') and len(p[1]) > 65535 for p in parts):
            raise Skip('stored block too long')
        return build_real([(p[0], bytes(p[1])) if len(p) > 1 else p for p in parts])

    def check(self, cond, label, detail=None):
        if not cond:
            self.fails.append([label, detail if isinstance(detail, str) else None])
            raise Stop()

    def learn(self, cond, label):
        self.check(cond, label)

    def eq(self, a, b, label):
        if not self.same(a, b):
            self.fails.append([label, 'got %s, expected %s' % (short(a), short(b))])
            raise Stop()

    def same(self, a, b):
        if isinstance(a, int) or a is None or b is None:
            return a == b
        return norm(a) == norm(b)

    def fail(self, label, detail=None):
        self.check(False, label, detail)

    def assume(self, cond):
        if not cond:
            raise Skip('assumption')

    def reach(self, label):
        self.trail.append(label)

    def all(self, *c):
        return all(c)

    def any(self, *c):
        return any(c)

    def no(self, c):
        return not c

    def implies(self, a, b):
        return (not a) or b

    def ite(self, c, a, b):
        return a if c else b

    def catch(self, fn, *a, **k):
        try:
            return fn(*a, **k), None
        except MemoryError:
            raise
        except Exception as e:
            # drop the frames: they would keep the objects of the failed call alive
            e.__traceback__ = None
            x = e
            while x.__context__ is not None or x.__cause__ is not None:
                y = x.__cause__ or x.__context__
                y.__traceback__ = None
                x = y
                if x is e:
                    break
            return None, e

    def within(self, limit, label, fn, *a, **k):
        import tracemalloc
        gc.collect()
        tracemalloc.start()
        try:
            base = tracemalloc.get_traced_memory()[0]
            tracemalloc.reset_peak()
            r = fn(*a, **k)
            peak = tracemalloc.get_traced_memory()[1] - base
        finally:
            tracemalloc.stop()
        self.check(peak <= limit, label, 'held %d bytes' % peak)
        return r

    def zdecode(self, data):
        try:
            d = zlib.decompressobj()
            out = d.decompress(data) + d.flush()
            return out if d.eof and not d.unused_data else None
        except zlib.error:
            return None

    # files (uninterposed)
    def _p(self, rel):
        return self.root + '/' + rel

    def put(self, rel, data, mtime=None):
        with Nest():
            p = self._p(rel)
            R['makedirs'](os.path.dirname(p), exist_ok=True)
            fd = R['open'](p, os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o644)
            data = bytes(data)
            while data:
                data = data[R['write'](fd, data):]
            R['close'](fd)
            self._stamp(os.path.dirname(p))
            self._stamp(p)
        return p

    def put_sparse(self, rel, parts):
        p = self.put(rel, b'')
        with Nest():
            fd = R['open'](p, os.O_WRONLY)
            n = 0
            for x in parts:
                if isinstance(x, int):
                    n += x
                    R['ftruncate'](fd, n)
                else:
                    os.lseek(fd, n, 0)
                    data = bytes(x)
                    n += len(data)
                    while data:
                        data = data[R['write'](fd, data):]
            R['close'](fd)
            self._stamp(p)
        return p

    def _stamp(self, p):
        """directory and file times advance strictly, like the model clock"""
        H.clock += 10
        os.utime(p, (H.clock, H.clock))
    clock = 1000000000

    def mkdir(self, rel):
        with Nest():
            R['makedirs'](self._p(rel), exist_ok=True)
        return self._p(rel)

    def get(self, rel):
        p = self._p(rel)
        with Nest():
            if not os.path.isfile(p):
                return None
            with _open(p, 'rb') as f:
                return f.read()

    def unlink(self, rel):
        with Nest():
            R['remove'](self._p(rel))
            self._stamp(os.path.dirname(self._p(rel)))

    def rmtree(self, rel):
        with Nest():
            p = os.path.realpath(self._p(rel))
            assert p.startswith(os.path.realpath(self.root) + os.sep) and rel, p
            for d, _, fs in list(os.walk(p, topdown=False)):
                for f in fs:
                    R['remove'](os.path.join(d, f))
                os.rmdir(d)
            self._stamp(os.path.dirname(p))

    def settle(self, hard=False):
        if hard:        # file systems take their time stamps from a coarse clock
            time.sleep(0.02)

    def exists(self, rel):
        with Nest():
            return os.path.lexists(self._p(rel))

    def files(self, rel=None):
        top = self.root if rel is None else self._p(rel)
        out = []
        with Nest():
            for d, ds, fs in R['walk'](top):
                for f in fs:
                    out.append(os.path.relpath(os.path.join(d, f), top))
        # same order as a sorted depth-first walk
        return sorted(out, key=lambda p: p.split('/'))

    def mode(self, rel):
        return R['stat'](self._p(rel)).st_mode & 0o7777

    def fds(self):
        gc.collect()
        n = 0
        for fd in R['listdir']('/proc/self/fd'):
            try:
                t = os.readlink('/proc/self/fd/' + fd)
            except OSError:
                continue
            if t.startswith(self.root + '/'):
                n += 1
        return n

    def ops(self):
        return FS.ops

    def fault(self, at, short=None, span=None, maps=False):
        FS.ops = 0
        FS.fault = {'at': at, 'used': False, 'short': short, 'name': None, 'span': span, 'names': [], 'maps': maps}

    def nofault(self):
        f = FS.fault
        FS.fault = None
        return bool(f and f['used'])

    def fault_name(self):
        return FS.fault and FS.fault['name']

    def fault_names(self):
        return list(FS.fault['names']) if FS.fault else []

    def crashable(self, fn, at, cut=0):
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                FS.ops = 0
                FS.crash_at, FS.crash_cut = at, cut
                fn()
            except Exception:
                code = 1
            except BaseException:
                code = 2
            finally:
                os._exit(code)
        _, st = os.waitpid(pid, 0)
        code = os.waitstatus_to_exitcode(st)
        return {99: 'crashed', 0: 'done', 1: 'raised'}.get(code, 'raised')

    def schedule(self, f0, f1, switches, watch=None, skip=False):
        def pick(n, cur):
            if n == 0:
                return self._in('sched.first', 0)
            return 1 - cur if self._in('sched.%d' % n, 0) == 1 else cur
        s = Scheduler(pick, 200)
        s.watch = watch
        s.skip = skip
        FS.sched = s
        try:
            res, exc = s.run(f0, f1)
        finally:
            FS.sched = None
        return list(zip(res, exc))


def norm(x):
    if isinstance(x, str):
        return x.encode()
    if isinstance(x, _mmap):
        return x[:]
    if isinstance(x, (bytes, bytearray, memoryview)):
        return bytes(x)
    if hasattr(x, 'getvalue'):
        return x.getvalue()
    return x


def short(x):
    x = norm(x)
    r = repr(x)
    return r if len(r) < 120 else r[:100] + '... (%s)' % (len(x) if hasattr(x, '__len__') else '')


def run_job(job, root):
    """in the child"""
    FS.root = root
    FS.active = True
    mod = importlib.import_module('harness.' + job['module'])
    fn = None
    for c in mod.cases(job['tier']):
        if c['name'] == job['case']:
            fn = c
    if fn is None:
        return {'status': 'nocase'}
    h = H(job['inputs'], root)
    out = {'status': 'ok'}
    try:
        fn['fn'](h, **fn.get('params', {}))
    except Stop:
        out['status'] = 'fail'
    except Skip as e:
        out['status'] = 'skip'
        out['why'] = str(e)
    except MemoryError:
        return {'status': 'error', 'exc': 'out of memory'}
    except Exception as e:
        out['status'] = 'exception'
        tb = traceback.extract_tb(e.__traceback__)
        out['exc'] = type(e).__name__
        out['msg'] = str(e)[:300]
        out['where'] = ['%s:%d %s' % (os.path.basename(f.filename), f.lineno, f.name) for f in tb[-4:]]
    out['fails'] = h.fails
    out['trail'] = h.trail
    return out


def main():
    install()
    import gitdb        # noqa
    jobs = json.load(sys.stdin)
    for job in jobs:
        root = tempfile.mkdtemp(prefix='gitdbsx-')
        root = os.path.realpath(root)
        R['mkdir'](root + '-temp')
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                R['close'](r)
                tempfile.tempdir = root + '-temp'
                os.setpgid(0, 0)
                # mapped files may be large, private memory may not
                resource.setrlimit(resource.RLIMIT_AS, (40 << 30, 40 << 30))
                mem = job.get('mem', 4 << 30)
                resource.setrlimit(resource.RLIMIT_DATA, (mem, mem))
                dn = R['open']('/dev/null', os.O_RDWR)
                os.dup2(dn, 0)
                os.dup2(dn, 1)
                os.dup2(dn, 2)
                try:
                    res = run_job(job, root)
                except BaseException as e:      # noqa
                    res = {'status': 'error', 'exc': repr(e)[:300]}
                data = json.dumps(res).encode()
                while data:
                    data = data[R['write'](w, data):]
            finally:
                os._exit(0)
        R['close'](w)
        buf = b''
        end = time.time() + job.get('timeout', 20)
        status = None
        while True:
            left = end - time.time()
            if left <= 0:
                status = 'hang'
                break
            rr, _, _ = select.select([r], [], [], left)
            if not rr:
                status = 'hang'
                break
            d = R['read'](r, 65536)
            if not d:
                break
            buf += d
        R['close'](r)
        try:
            os.killpg(pid, signal.SIGKILL)
        except OSError:
            try:
                os.kill(pid, signal.SIGKILL)
            except OSError:
                pass
        os.waitpid(pid, 0)
        if status == 'hang':
            res = {'status': 'hang'}
        else:
            try:
                res = json.loads(buf)
            except ValueError:
                res = {'status': 'error', 'exc': 'child died'}
        shutil.rmtree(root, ignore_errors=True)
        shutil.rmtree(root + '-temp', ignore_errors=True)
        res['id'] = job.get('id')
        sys.stdout.write(json.dumps(res) + '\n')
        sys.stdout.flush()


if __name__ == '__main__':
    main()
