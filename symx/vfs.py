"""File system model: directories, files with symbolic contents, descriptors, mappings,
single faults, crash points and two-actor schedules."""
import codecs
import errno
import fnmatch
import glob
import io
import mmap as _mmap
import os
import posixpath
import shutil
import stat as _stat
import tempfile
import threading
import time

from .core import E, Control, Unsupported, SxBug
from .ints import SymInt, var, is_sym
from .ropes import SymBytes, pin, mk, segs_of, Src
from . import models
from .models import m_len, m_slice, reg, SxMemMap, SxBytesIO, symbolic

ROOT = '/sxfs'
ELSE = '/sxelse'        # the directory for temporary files, on another device


MAX_RW = 0x7ffff000         # most that Linux transfers in one call


class Crash(Control):
    """the modelled process died"""


class Node:
    _n = 0

    def __init__(self, isdir):
        Node._n += 1
        self.ino = Node._n
        self.isdir = isdir
        self.ent = {} if isdir else None
        self.symnames = []          # entries with symbolic names: (SymStr, Node)
        self.data = b''
        self.mode = 0o755 if isdir else 0o644
        self.mtime = 1
        self.nlink = 1
        self.maps = set()


class FD:
    def __init__(self, node, flags, path):
        self.node, self.flags, self.pos, self.path = node, flags, 0, path


class Stat:
    def __init__(self, node):
        self.st_size = m_len(node.data) if not node.isdir else 4096
        self.st_mtime = node.mtime
        self.st_mtime_ns = node.mtime * 1000000000
        self.st_ctime = node.mtime
        self.st_mode = (_stat.S_IFDIR if node.isdir else _stat.S_IFREG) | node.mode
        self.st_ino = node.ino
        self.st_dev = 1
        self.st_nlink = node.nlink


class FS:
    def __init__(self):
        self.root = Node(True)
        self.root.ent['sxfs'] = Node(True)
        self.root.ent['sxelse'] = Node(True)
        self.fds = {}
        self.nextfd = 1000
        self.maps = {}
        self.tmpn = 0
        self.clock = 2
        self.ops = 0            # counted operations
        self.log = []
        self.fault = None       # dict(at=SymInt, used)
        self.crash_at = None
        self.frozen = False
        self.sched = None
        self.temps = set()
        self.cursors = {}

    # ---- plumbing
    def touch(self, node):
        self.clock += 1
        node.mtime = self.clock

    def node(self, path):
        path = posixpath.normpath(path)
        n = self.root
        for p in path.split('/'):
            if not p:
                continue
            if not n.isdir:
                raise NotADirectoryError(errno.ENOTDIR, 'Not a directory', path)
            if p not in n.ent:
                return None
            n = n.ent[p]
        return n

    def parent(self, path):
        path = posixpath.normpath(path)
        d, b = posixpath.split(path)
        n = self.node(d)
        if n is None:
            raise FileNotFoundError(errno.ENOENT, 'No such file or directory', path)
        if not n.isdir:
            raise NotADirectoryError(errno.ENOTDIR, 'Not a directory', path)
        return n, b

    def private(self, f):
        """nobody else can know of the file yet: it still has the random name mkstemp gave it"""
        if f.path not in self.temps or posixpath.basename(f.path).startswith('pack-'):
            return False
        return f.node.nlink == 1 and self.node(f.path) is f.node

    def op(self, name, *info, n=None, fd=None):
        """a counted operation.  Returns None, or ('short', k) for a short write"""
        E.guard()
        if self.frozen:
            raise Crash('dead')
        if self.sched is not None:
            if fd is None or not self.sched.skip or not self.private(fd):
                self.sched.point(name, info)
            if self.frozen:
                raise Crash('dead')
        self.ops += 1
        idx = self.ops
        self.log.append((idx, name) + info)
        if self.crash_at is not None and self.crash_at == idx:
            self.frozen = True
            if n is not None:
                return ('crash', None)
            raise Crash(name)
        f = self.fault
        if f is not None and (not f['used'] and f['at'] == idx if f['span'] is None else f['at'] <= idx and idx < f['at'] + f['span']):
            if not f['used']:
                f['name'] = name
            f['used'] = True
            f['names'].append(name)
            if n is not None and f['short'] is not None and f['kind'] == 1:
                if n > 0:
                    return ('short', f['short'])
                return None
            raise OSError(errno.EIO, 'injected fault', name)
        return None

    # ---- operations
    def open(self, path, flags, mode=0o777, dir_fd=None):
        path = os.fspath(path)
        self.op('open', path, flags & (os.O_CREAT | os.O_EXCL | os.O_WRONLY | os.O_RDWR))
        p, b = self.parent(path)
        node = p.ent.get(b)
        if node is None:
            if not flags & os.O_CREAT:
                raise FileNotFoundError(errno.ENOENT, 'No such file or directory', path)
            node = Node(False)
            node.mode = mode & 0o777 & ~0o022
            p.ent[b] = node
            self.touch(p)
            self.touch(node)
        else:
            if flags & os.O_CREAT and flags & os.O_EXCL:
                raise FileExistsError(errno.EEXIST, 'File exists', path)
            if node.isdir and flags & (os.O_WRONLY | os.O_RDWR):
                raise IsADirectoryError(errno.EISDIR, 'Is a directory', path)
            if flags & os.O_TRUNC:
                node.data = b''
                self.touch(node)
        return self._newfd(node, flags, path)

    def _newfd(self, node, flags, path):
        fd = self.nextfd
        self.nextfd += 1
        self.fds[fd] = FD(node, flags, path)
        return fd

    def getfd(self, fd):
        if fd not in self.fds:
            raise OSError(errno.EBADF, 'Bad file descriptor')
        return self.fds[fd]

    def close(self, fd):
        E.guard()
        if self.frozen:
            raise Crash('dead')
        f = self.getfd(fd)
        # like Linux, the descriptor is released even if close reports an error
        del self.fds[fd]
        self.op('close', f.path, fd=f)

    def read(self, fd, n):
        f = self.getfd(fd)
        self.op('read', f.path, fd=f)
        if n < 0:
            raise OSError(errno.EINVAL, 'Invalid argument')
        if f.node.isdir:
            raise IsADirectoryError(errno.EISDIR, 'Is a directory')
        ln = m_len(f.node.data)
        if n > MAX_RW:
            n = MAX_RW
        end = f.pos + n
        if end > ln:
            end = ln
        d = m_slice(f.node.data, f.pos, end) if f.pos < ln else b''
        f.pos = f.pos + m_len(d)
        return d

    def write(self, fd, data):
        f = self.getfd(fd)
        s = segs_of(data)
        if s is None:
            raise TypeError('a bytes-like object is required')
        if not f.flags & (os.O_WRONLY | os.O_RDWR):
            raise OSError(errno.EBADF, 'Bad file descriptor')
        rope = mk(s)
        n = m_len(rope)
        r = self.op('write', f.path, n=n, fd=f)
        cut = None
        if r is not None:
            if r[0] == 'crash':
                c = self.crash_cut
                cut = c if c < n else n
            else:
                miss = r[1]
                cut = n - miss if miss < n else 0
            rope = m_slice(rope, 0, cut)
        elif n > MAX_RW:
            cut = MAX_RW
            rope = m_slice(rope, 0, cut)
        b = SxBytesIO(f.node.data)
        b._held = False         # not memory
        b._p = f.pos if not f.flags & os.O_APPEND else m_len(f.node.data)
        b.write(rope)
        f.node.data = b._r
        f.pos = b._p
        self.touch(f.node)
        if r is not None and r[0] == 'crash':
            raise Crash('write')
        return n if cut is None else cut

    def lseek(self, fd, pos, how):
        f = self.getfd(fd)
        f.pos = pos if how == 0 else f.pos + pos if how == 1 else m_len(f.node.data) + pos
        return f.pos

    def fsync(self, fd):
        f = self.getfd(fd)
        self.op('fsync', f.path, fd=f)

    def ftruncate(self, fd, n):
        f = self.getfd(fd)
        self.op('ftruncate', f.path, fd=f)
        b = SxBytesIO(f.node.data)
        b._held = False         # not memory
        b.truncate(n)
        f.node.data = b._r

    def rename(self, a, b, **k):
        a, b = os.fspath(a), os.fspath(b)
        self.op('rename', a, b)
        if other_device(a, b):
            raise OSError(errno.EXDEV, 'Invalid cross-device link', a)
        pa, na = self.parent(a)
        pb, nb = self.parent(b)
        if na not in pa.ent:
            raise FileNotFoundError(errno.ENOENT, 'No such file or directory', a)
        n = pa.ent[na]
        t = pb.ent.get(nb)
        if t is not None and t is not n:
            if t.isdir and not n.isdir:
                raise IsADirectoryError(errno.EISDIR, 'Is a directory', b)
            if n.isdir and not t.isdir:
                raise NotADirectoryError(errno.ENOTDIR, 'Not a directory', b)
        del pa.ent[na]
        pb.ent[nb] = n
        self.touch(pa)
        self.touch(pb)

    def move(self, a, b, **k):
        a, b = os.fspath(a), os.fspath(b)
        if other_device(a, b):
            raise Unsupported('shutil.move to another device')
        return self.rename(a, b)

    def link(self, a, b, **k):
        self.op('link', a, b)
        if other_device(a, b):
            raise OSError(errno.EXDEV, 'Invalid cross-device link', a)
        n = self.node(a)
        if n is None:
            raise FileNotFoundError(errno.ENOENT, 'No such file or directory', a)
        p, nb = self.parent(b)
        if nb in p.ent:
            raise FileExistsError(errno.EEXIST, 'File exists', b)
        p.ent[nb] = n
        n.nlink += 1
        self.touch(p)

    def remove(self, path, **k):
        path = os.fspath(path)
        self.op('remove', path)
        p, b = self.parent(path)
        if b not in p.ent:
            raise FileNotFoundError(errno.ENOENT, 'No such file or directory', path)
        if p.ent[b].isdir:
            raise IsADirectoryError(errno.EISDIR, 'Is a directory', path)
        p.ent[b].nlink -= 1
        del p.ent[b]
        self.touch(p)

    def mkdir(self, path, mode=0o777, **k):
        self.op('mkdir', path)
        self._mkdir(path)

    def _mkdir(self, path):
        p, b = self.parent(path)
        if b in p.ent:
            raise FileExistsError(errno.EEXIST, 'File exists', path)
        p.ent[b] = Node(True)
        self.touch(p)
        self.touch(p.ent[b])

    def makedirs(self, path, mode=0o777, exist_ok=False):
        path = os.fspath(path)
        self.op('makedirs', path)
        n = self.node(path)
        if n is not None:
            if not exist_ok or not n.isdir:
                raise FileExistsError(errno.EEXIST, 'File exists', path)
            return
        parts = posixpath.normpath(path).split('/')
        for i in range(2, len(parts) + 1):
            d = '/'.join(parts[:i])
            m = self.node(d)
            if m is None:
                self._mkdir(d)
            elif not m.isdir:
                raise NotADirectoryError(errno.ENOTDIR, 'Not a directory', d)

    def rmdir(self, path, **k):
        self.op('rmdir', path)
        p, b = self.parent(path)
        if b not in p.ent:
            raise FileNotFoundError(errno.ENOENT, 'No such file or directory', path)
        if not p.ent[b].isdir:
            raise NotADirectoryError(errno.ENOTDIR, 'Not a directory', path)
        if p.ent[b].ent:
            raise OSError(errno.ENOTEMPTY, 'Directory not empty', path)
        del p.ent[b]

    def chmod(self, path, mode, **k):
        self.op('chmod', path)
        n = self.node(path)
        if n is None:
            raise FileNotFoundError(errno.ENOENT, 'No such file or directory', path)
        n.mode = mode & 0o7777

    def utime(self, path, *a, **k):
        n = self.node(path)
        if n is None:
            raise FileNotFoundError(errno.ENOENT, 'No such file or directory', path)

    def look(self, name, path):
        """uncounted query; still a scheduling point and subject to the crash"""
        E.guard()
        if self.frozen:
            raise Crash('dead')
        if self.sched is not None:
            self.sched.point(name, (path,))
        try:
            return self.node(os.fspath(path))
        except NotADirectoryError:
            return None

    def stat(self, path, **k):
        if isinstance(path, int):
            return Stat(self.getfd(path).node)
        n = self.look('stat', path)
        if n is None:
            raise FileNotFoundError(errno.ENOENT, 'No such file or directory', path)
        return Stat(n)

    def fstat(self, fd):
        return Stat(self.getfd(fd).node)

    def listdir(self, path='.'):
        n = self.look('listdir', path)
        if n is None:
            raise FileNotFoundError(errno.ENOENT, 'No such file or directory', path)
        if not n.isdir:
            raise NotADirectoryError(errno.ENOTDIR, 'Not a directory', path)
        return list(n.ent) + [s for s, _ in n.symnames]

    def walk(self, top, topdown=True, onerror=None, followlinks=False):
        top = os.fspath(top)
        n = self.look('walk', top)
        if n is None or not n.isdir:
            return
        dirs = [k for k, v in n.ent.items() if v.isdir]
        files = [k for k, v in n.ent.items() if not v.isdir] + [s for s, v in n.symnames if not v.isdir]
        if not topdown:
            for d in dirs:
                yield from self.walk(posixpath.join(top, d), topdown, onerror)
        yield top, dirs, files
        if topdown:
            for d in list(dirs):
                yield from self.walk(posixpath.join(top, d), topdown, onerror)

    def scandir(self, path='.'):
        n = self.look('scandir', path)
        if n is None:
            raise FileNotFoundError(errno.ENOENT, 'No such file or directory', path)

        class Entry:
            def __init__(s, name, node):
                s.name, s.node, s.path = name, node, posixpath.join(path, name) if isinstance(name, str) else name

            def is_file(s, **k):
                return not s.node.isdir

            def is_dir(s, **k):
                return s.node.isdir

            def is_symlink(s):
                return False

            def stat(s, **k):
                return Stat(s.node)

            def inode(s):
                return s.node.ino

        class It(list):
            def __enter__(s):
                return s

            def __exit__(s, *a):
                return False

            def close(s):
                pass
        return It([Entry(k, v) for k, v in n.ent.items()] + [Entry(k, v) for k, v in n.symnames])

    def glob(self, pattern):
        d, b = posixpath.split(pattern)
        if glob.has_magic(d):
            raise Unsupported('glob with wildcard directories')
        n = self.look('glob', d)
        if n is None or not n.isdir:
            return []
        return [posixpath.join(d, k) for k in fnmatch.filter(list(n.ent), b)
                if not k.startswith('.') or b.startswith('.')]

    def mkstemp(self, suffix=None, prefix=None, dir=None, text=False):
        self.op('mkstemp', dir)
        self.tmpn += 1
        name = '%s_sxtmp%d%s' % (prefix if prefix is not None else 'tmp', self.tmpn, suffix or '')
        path = posixpath.join(dir, name)
        p, b = self.parent(path)
        node = Node(False)
        node.mode = 0o600
        p.ent[b] = node
        self.temps.add(path)
        self.touch(p)
        self.touch(node)
        return self._newfd(node, os.O_RDWR, path), path

    # ---- harness side (never counted)
    def h_put(self, path, data, mtime=None):
        parts = posixpath.normpath(path).split('/')
        for i in range(2, len(parts)):
            d = '/'.join(parts[:i])
            if self.node(d) is None:
                self._mkdir(d)
        p, b = self.parent(path)
        n = Node(False)
        n.data = data
        if b in p.ent:
            pass
        p.ent[b] = n
        self.touch(p)
        self.touch(n)
        return n

    def h_get(self, path):
        n = self.node(path)
        return None if n is None or n.isdir else n.data

    def h_files(self, path=ROOT):
        out = []

        def rec(n, p):
            for k, v in sorted(n.ent.items()):
                q = p + '/' + k if p else k
                if v.isdir:
                    rec(v, q)
                else:
                    out.append(q)
        n = self.node(path)
        if n is not None:
            rec(n, '')
        return out


FSX = FS()


def reset():
    global FSX
    FSX = FS()
    Node._n = 0
    return FSX


def mine(p):
    if isinstance(p, SymBytes):
        return True
    try:
        p = os.fspath(p)
    except TypeError:
        return False
    if isinstance(p, bytes):
        return False
    return p == ROOT or p.startswith((ROOT + '/', ELSE + '/')) or p == ELSE


def other_device(a, b):
    return a.startswith(ELSE) != b.startswith(ELSE)


def _p1(orig, name):
    def f(path, *a, **k):
        if isinstance(path, SymBytes):
            path = pin(path, '%s of a symbolic path' % name)
        if mine(path) or isinstance(path, int) and path in FSX.fds:
            return getattr(FSX, name)(path, *a, **k)
        return orig(path, *a, **k)
    reg(orig, f)
    return f


def _fd1(orig, name):
    def f(fd, *a, **k):
        if fd in FSX.fds or fd >= 1000:
            return getattr(FSX, name)(fd, *a, **k)
        return orig(fd, *a, **k)
    reg(orig, f)
    return f


for _n in ('open', 'rename', 'link', 'remove', 'mkdir', 'makedirs', 'rmdir', 'chmod', 'stat', 'listdir', 'scandir',
           'walk', 'utime'):
    _p1(getattr(os, _n), _n)
_p1(os.unlink, 'remove')
_p1(os.replace, 'rename')
_p1(os.lstat, 'stat')
_p1(shutil.move, 'move')
for _n in ('close', 'read', 'write', 'fsync', 'fstat', 'lseek', 'ftruncate'):
    _fd1(getattr(os, _n), _n)
reg(os.fdatasync, lambda fd: FSX.fsync(fd))
_p1(glob.glob, 'glob')
reg(glob.iglob, lambda p: iter(FSX.glob(p)) if mine(p) else glob.iglob(p))


def _mkstemp(suffix=None, prefix=None, dir=None, text=False):
    if dir is not None and mine(dir):
        return FSX.mkstemp(suffix, prefix, dir, text)
    if dir is None:
        return FSX.mkstemp(suffix, prefix, ELSE, text)
    return tempfile.mkstemp(suffix, prefix, dir, text)


reg(tempfile.mkstemp, _mkstemp)
reg(tempfile.gettempdir, lambda: ELSE)


def _exists(p):
    if mine(p):
        return FSX.look('exists', p) is not None
    return os.path.exists(p)


def _isfile(p):
    if mine(p):
        n = FSX.look('isfile', p)
        return n is not None and not n.isdir
    return os.path.isfile(p)


def _isdir(p):
    if mine(p):
        n = FSX.look('isdir', p)
        return n is not None and n.isdir
    return os.path.isdir(p)


reg(os.path.exists, _exists)
reg(os.path.lexists, _exists)
reg(os.path.isfile, _isfile)
reg(os.path.isdir, _isdir)
reg(os.path.islink, lambda p: False if mine(p) else os.path.islink(p))
reg(os.path.getsize, lambda p: FSX.stat(p).st_size if mine(p) else os.path.getsize(p))
reg(os.path.getmtime, lambda p: FSX.stat(p).st_mtime if mine(p) else os.path.getmtime(p))
reg(os.path.realpath, lambda p, **k: posixpath.normpath(p) if mine(p) else os.path.realpath(p, **k))
reg(os.access, lambda p, m, **k: FSX.look('access', p) is not None if mine(p) else os.access(p, m, **k))
reg(time.sleep, lambda s: None)
reg(time.time, lambda: float(FSX.clock))


def _join(a, *p):
    if symbolic((a,) + p):
        out = a
        for q in p:
            if m_len(out) == 0:
                out = q
            else:
                out = out + '/' + q
        return out
    return posixpath.join(a, *p)


def _sym_guard(orig, name):
    def f(x, *a):
        if isinstance(x, SymBytes):
            x = pin(x, '%s of a symbolic path' % name)
        return orig(x, *a)
    reg(orig, f)


reg(os.path.join, _join)
for _n in ('basename', 'dirname', 'splitext', 'split', 'normpath', 'abspath'):
    _sym_guard(getattr(os.path, _n), _n)


# ---- mmap
def _mmap_ctor(fileno, length, *a, **k):
    E.guard()
    if fileno == -1:
        from .ropes import rope_repeat
        if length < 0:
            raise OverflowError('memory mapped length must be positive')
        if length == 0:
            raise OSError(errno.EINVAL, 'Invalid argument')
        return SxMemMap(rope_repeat(b'\0', length), False)
    f = FSX.getfd(fileno)
    access = k.get('access', a[0] if a else 0)
    FSX.op('mmap', f.path)
    if f.node.isdir:
        raise OSError(errno.ENODEV, 'No such device')
    n = m_len(f.node.data)
    if isinstance(length, int) and length == 0:
        if n == 0:
            raise ValueError('cannot mmap an empty file')
        data = f.node.data
    else:
        if length > n:
            raise ValueError('mmap length is greater than file size')
        data = mapped(f.node.data, 0, length)
    return FileMap(data, access == _mmap.ACCESS_READ, f.node)


class FileMap(SxMemMap):
    """a mapping keeps a duplicate descriptor until it is closed or collected"""
    def __init__(self, data, ro, node):
        SxMemMap.__init__(self, data, ro, node)
        self._fs = FSX
        FSX.maps[id(self)] = True

    def close(self):
        self.closed = True
        self._fs.maps.pop(id(self), None)

    def __del__(self):
        self._fs.maps.pop(id(self), None)


reg(_mmap.mmap, _mmap_ctor)


# ---- buffered files
class SxFile:
    def __init__(self, fd, mode, encoding=None, errors=None, newline=None, codec=False):
        self._fd, self._mode = fd, mode
        self._enc, self._err, self._nl, self._codec = encoding or 'utf-8', errors or 'strict', newline, codec
        self._buf = []
        self._pending = None
        self.closed = False
        self.name = FSX.getfd(fd).path
        self._text = 'b' not in mode
        if 'a' in mode:
            f = FSX.getfd(fd)
            f.pos = m_len(f.node.data)

    def fileno(self):
        return self._fd

    def read(self, n=-1):
        f = FSX.getfd(self._fd)
        if n is None or n < 0:
            n = m_len(f.node.data)
        d = FSX.read(self._fd, n)
        if not self._text:
            return d
        d = d.decode(self._enc, self._err)
        if self._nl is None and not self._codec:
            d = d.replace('\r\n', '\n').replace('\r', '\n')
        return d

    def write(self, data):
        if self._text:
            data = data.encode(self._enc, self._err)
        self._buf.extend(segs_of(data))
        return m_len(mk(segs_of(data)))

    def flush(self):
        if self._buf:
            rope = mk(self._buf)
            self._buf = []
            # a buffered file object retries short writes
            n = m_len(rope)
            done = 0
            while done < n:
                E.tick()
                done = done + FSX.write(self._fd, m_slice(rope, done, n))

    def seek(self, pos, how=0):
        self.flush()
        return FSX.lseek(self._fd, pos, how)

    def tell(self):
        return FSX.getfd(self._fd).pos

    def readline(self):
        if self._pending is None:
            self._pending = self._split()
        return next(self._pending, '' if self._text else b'')

    def __iter__(self):
        while True:
            line = self.readline()
            if not m_len(line) > 0:
                return
            yield line

    def _split(self):
        d = self.read()
        if isinstance(d, SymBytes):
            d = pin(d, 'iterating lines of a symbolic file')
        if self._text and not self._codec and self._nl != '':
            e = self._nl or '\n'
            while d:
                k = d.find(e)
                k = len(d) if k < 0 else k + len(e)
                yield d[:k]
                d = d[k:]
            return
        for line in d.splitlines(True):
            yield line

    def readlines(self):
        return list(self)

    def close(self):
        if not self.closed:
            self.closed = True
            try:
                self.flush()
            finally:
                FSX.close(self._fd)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def __del__(self):
        if not self.closed:
            FSX.fds.pop(self._fd, None)


def _open_flags(mode):
    fl = os.O_RDONLY
    if '+' in mode:
        fl = os.O_RDWR
    elif 'w' in mode or 'a' in mode or 'x' in mode:
        fl = os.O_WRONLY
    if 'w' in mode:
        fl |= os.O_CREAT | os.O_TRUNC
    if 'a' in mode:
        fl |= os.O_CREAT | os.O_APPEND
    if 'x' in mode:
        fl |= os.O_CREAT | os.O_EXCL
    return fl


def _open(path, mode='r', buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
    if isinstance(path, int):
        return SxFile(path, mode, encoding, errors, newline)
    if not mine(path):
        return open(path, mode, buffering, encoding, errors, newline, closefd, opener)
    fl = _open_flags(mode)
    return SxFile(opener(path, fl) if opener else FSX.open(path, fl, 0o666), mode, encoding, errors, newline)


def _codecs_open(path, mode='r', encoding=None, errors='strict', buffering=-1):
    if not mine(path):
        return codecs.open(path, mode, encoding, errors, buffering)
    if encoding is None:
        return _open(path, mode)
    codecs.lookup(encoding)
    return SxFile(FSX.open(path, _open_flags(mode), 0o666), mode, encoding, errors, codec=True)


reg(open, _open)
reg(io.open, _open)
reg(codecs.open, _codecs_open)
reg(os.fdopen, _open)


def mapped(r, a, b):
    """a slice that takes no memory"""
    keep, E.alloc = E.alloc, None
    try:
        return m_slice(r, a, b)
    finally:
        E.alloc = keep


# ---- smmap cursors
class Region:
    def __init__(self, b, size):
        self.b, self.size = b, size

    def end(self):
        return self.b + self.size

    def has(self, ofs):
        return bool(ofs >= self.b) and bool(ofs < self.b + self.size)


class Mapped:
    """what a map manager keeps per path: the size, the contents and the mapped regions"""
    def __init__(self, data):
        self.data, self.fsize, self.regions = data, m_len(data), []


def _lo(x, y):
    return x if x < y else y


class Cursor:
    """smmap WindowCursor.  window 0: regions span the whole file"""
    def __init__(self, path, window=0):
        self._path = path
        self._window = window
        self._ofs = 0
        self._size = 0
        self._region = None

    def _snap(self):
        c = FSX.cursors.get(self._path)
        if c is None:
            n = FSX.look('stat', self._path)
            if n is None:
                raise FileNotFoundError(errno.ENOENT, 'No such file or directory', self._path)
            c = FSX.cursors[self._path] = Mapped(n.data)
        return c

    def file_size(self):
        return self._snap().fsize

    def use_region(self, offset=0, size=0, flags=0):
        E.guard()
        c = self._snap()
        fs = c.fsize
        want = size if not (isinstance(size, int) and size == 0) else fs
        if self._window:
            want = _lo(want, self._window)
        need = True
        if self._region is not None:
            if len(c.regions) == 1 and c.regions[0] is self._region and self._region.size is fs or self._region.has(offset):
                need = False
            else:
                self._region = None
        if offset >= fs:
            self._region = None
            return self
        if offset < 0:
            self._region = None
            raise ValueError('memory mapped offset must be positive')
        if need:
            self._region = self._obtain(c, offset, want)
        self._ofs = offset
        self._size = _lo(want, self._region.end() - offset)
        return self

    def _obtain(self, c, offset, size):
        for r in c.regions:
            if r.size is c.fsize or r.has(offset):
                return r
        for again in (False, True):         # smmap tries twice
            try:
                if FSX.fault is not None and FSX.fault['maps']:
                    FSX.op('open', self._path)
                if FSX.node(self._path) is None:
                    raise FileNotFoundError(errno.ENOENT, 'No such file or directory', self._path)
                break
            except OSError:
                if again:
                    raise
        win = self._window
        if not win or c.fsize <= win:
            r = Region(0, c.fsize)
            c.regions.append(r)
            return r
        # the largest window between the neighbours that holds the offset, see smmap
        pos = len(c.regions)
        for i, r in enumerate(c.regions):
            if r.b > offset:
                pos = i
                break
        left = c.regions[pos - 1].end() if pos else 0
        right = c.regions[pos].b if pos < len(c.regions) else c.fsize
        ofs = offset
        rofs = ofs - left
        nsize = rofs + size
        rofs = rofs - (nsize - _lo(nsize, win))
        ofs = ofs - rofs
        size = size + rofs
        size = _lo(size + (right - (ofs + size)), win)
        g = _mmap.ALLOCATIONGRANULARITY
        nofs = (ofs // g) * g
        size = size + (ofs - nofs)
        ofs = nofs
        up = (size // g) * g
        if up != size:
            up = up + g
        size = up
        if ofs + size > right:
            size = right - ofs
        if size > c.fsize - ofs:
            size = c.fsize - ofs
        r = Region(ofs, size)
        c.regions.insert(pos, r)
        return r

    def unuse_region(self):
        self._region = None

    def buffer(self):
        if self._region is None:
            raise AttributeError("'NoneType' object has no attribute 'buffer'")
        return mk(segs_of(mapped(self._snap().data, self._ofs, self._ofs + self._size)), 'memoryview')

    def map(self):
        if self._region is None:
            raise AttributeError("'NoneType' object has no attribute 'map'")
        c = self._snap()
        r = self._region
        return SxMemMap(c.data if r.size is c.fsize else mapped(c.data, r.b, r.end()), True)

    def is_valid(self):
        return self._region is not None

    def is_associated(self):
        return True

    def ofs_begin(self):
        return self._ofs

    def ofs_end(self):
        return self._ofs + self._size

    def size(self):
        return self._size

    def includes_ofs(self, ofs):
        return bool(ofs >= self._ofs) and bool(ofs < self._ofs + self._size)

    def path(self):
        return self._path

    path_or_fd = path

    def __copy__(self):
        c = Cursor(self._path, self._window)
        c._ofs, c._size, c._region = self._ofs, self._size, self._region
        return c


def register_smmap():
    import smmap

    def make_cursor(man, path):
        if mine(path):
            return Cursor(path, man._window_size if isinstance(man, smmap.SlidingWindowMapManager) else 0)
        return smmap.StaticWindowMapManager.make_cursor(man, path)
    reg(smmap.StaticWindowMapManager.make_cursor, make_cursor)
    reg(smmap.StaticWindowMapManager.force_map_handle_removal_win, lambda m, p: None)
    reg(smmap.StaticWindowMapManager.collect, lambda m: 0)
    import copy
    reg(copy.copy, lambda x: x.__copy__() if isinstance(x, Cursor) else copy.copy(x))


# ---- schedules
class Scheduler:
    """two actors, one runs at a time; pick(i) says who continues at the i-th switch point"""
    def __init__(self, pick, limit=40):
        self.pick = pick
        self.n = 0
        self.limit = limit
        self.cv = threading.Condition()
        self.turn = 0
        self.alive = [True, True]
        self.cur = threading.local()
        self.exc = [None, None]
        self.res = [None, None]
        self.trace = []
        self.watch = None
        self.skip = False

    def me(self):
        return getattr(self.cur, 'i', None)

    def point(self, name, info):
        i = self.me()
        if i is None:
            return
        self.n += 1
        if self.watch is not None:
            self.watch()
        if self.alive[1 - i] and self.n <= self.limit:
            nxt = self.pick(self.n, i)
            self.trace.append((i, name))
            if nxt != i:
                with self.cv:
                    self.turn = nxt
                    self.cv.notify_all()
                    while self.turn != i and self.alive[1 - i]:
                        self.cv.wait()
                    self.turn = i
        else:
            self.trace.append((i, name))

    def run(self, f0, f1):
        def body(i, f):
            self.cur.i = i
            with self.cv:
                while self.turn != i and self.alive[1 - i]:
                    self.cv.wait()
                self.turn = i
            try:
                self.res[i] = f()
            except BaseException as e:      # noqa
                self.exc[i] = e
            with self.cv:
                self.alive[i] = False
                self.turn = 1 - i
                self.cv.notify_all()
        ts = [threading.Thread(target=body, args=(i, f)) for i, f in ((0, f0), (1, f1))]
        self.turn = self.pick(0, 0)
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        for e in self.exc:
            if isinstance(e, Control):
                raise e
        return self.res, self.exc
