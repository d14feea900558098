"""Symbolic side of the harness interface (the concrete twin is concrete.H)."""
import z3

from .core import E, SymBool, b_and, b_or, b_not, b_implies, bexpr, Unsupported, Control, mk_bool
from .ints import SymInt, var, ite, is_sym
from .ropes import Source, Known, SymBytes, Src, Cells, mk, segs_of, total, rope_repeat, Table
from . import models, vfs, zmodel
from .models import m_len


def _ev(m, x):
    return x if isinstance(x, int) else x.model_value(m)


class H:
    symbolic = True
    root = vfs.ROOT

    def __init__(self):
        self.trail = []
        self.pending = []

    # ---- inputs
    def int(self, name, lo, hi):
        x = var('in.' + name, lo, hi)
        E.add_input(name, lambda m: _ev(m, x))
        return x

    def flag(self, name):
        return self.int(name, 0, 1) == 1

    def bit(self, name):
        """a decided boolean (forks)"""
        return bool(self.flag(name))

    def pick(self, name, options):
        i = self.int(name, 0, len(options) - 1)
        return options[E.concretize(i, 4000, name)]

    def conc(self, x):
        """fork over all values of x"""
        return E.concretize(x, 4000, 'value')

    def known(self, name, b):
        """these bytes, to be cut at symbolic places"""
        return mk([Src(Known('known.' + name, b), 0, len(b))])

    def src(self, name, n):
        """n bytes of unconstrained content"""
        s = Source('in.' + name)

        def rd(m):
            ln = _ev(m, n)
            pts = {}
            for src, i, e in E.points:
                if src is s:
                    k = _ev(m, i)
                    if 0 <= k < ln:
                        v = m.eval(e, model_completion=True)
                        pts[k] = v.as_long() & 255
            return {'n': ln, 'p': sorted(pts.items())}
        E.add_input(name, rd)
        if is_sym(n):
            E.sizes.append(n)
        return mk([Src(s, 0, n)])

    def cells(self, name, n, lo=0, hi=255):
        """n individually symbolic bytes"""
        vs = [var('in.%s.%d' % (name, i), lo, hi) for i in range(n)]
        E.add_input(name, lambda m: bytes(_ev(m, v) for v in vs).hex())
        return mk([Cells(vs)])

    def table(self, n, fn):
        """[fn(0), ..., fn(n - 1)]; fn may also be applied to a symbolic index"""
        return list(Table(n, fn).vals)

    def zstream(self, name, parts):
        return zmodel.build(name, parts).rope()

    # ---- statements
    def check(self, cond, label, detail=None):
        E.check(cond, label, detail)

    def eq(self, a, b, label):
        E.check(self.same(a, b), label)

    def learn(self, cond, label):
        """like check; what was shown is used as a lemma afterwards"""
        E.learn(cond, label)

    def same(self, a, b):
        if isinstance(a, (SymInt, int)) or a is None or b is None:
            return a == b
        ra, rb = segs_of(a), segs_of(b)
        if ra is None or rb is None:
            return a == b
        x, y = mk(ra), mk(rb)
        return x == y

    def fail(self, label, detail=None):
        E.fail(label, detail)

    def assume(self, cond):
        E.assume(cond)

    def reach(self, label):
        self.trail.append(label)
        E.reach(label)

    def all(self, *c):
        return b_and(*c)

    def any(self, *c):
        return b_or(*c)

    def no(self, c):
        return b_not(c)

    def implies(self, a, b):
        return b_implies(a, b)

    def ite(self, c, a, b):
        return ite(c, a, b)

    def catch(self, fn, *a, **k):
        """(result, None) or (None, exception)"""
        try:
            r = models.call(fn, *a, **k)
        except Exception as e:
            E.guard()
            return None, e
        E.guard()
        return r, None

    def within(self, limit, label, fn, *a, **k):
        """fn(*a), which never holds more than limit bytes (symbolically: in one piece)"""
        E.alloc = limit, label
        try:
            return models.call(fn, *a, **k)
        finally:
            E.alloc = None

    def zdecode(self, data):
        """contents of exactly one complete zlib stream, or None"""
        return zmodel.decode(data)

    # ---- files
    def put(self, rel, data, mtime=None):
        n = vfs.FSX.h_put(self.root + '/' + rel, data)
        return self.root + '/' + rel

    def put_sparse(self, rel, parts):
        """a file of byte strings and holes (numbers: that many zero bytes)"""
        from .ropes import rope_repeat
        out = b''
        for x in parts:
            out = out + (x if segs_of(x) is not None else rope_repeat(b'\0', x))
        return self.put(rel, out)

    def mkdir(self, rel):
        p = self.root + '/' + rel
        parts = rel.split('/')
        for i in range(1, len(parts) + 1):
            d = self.root + '/' + '/'.join(parts[:i])
            if vfs.FSX.node(d) is None:
                vfs.FSX._mkdir(d)
        return p

    def get(self, rel):
        return vfs.FSX.h_get(self.root + '/' + rel)

    def unlink(self, rel):
        p, b = vfs.FSX.parent(self.root + '/' + rel)
        del p.ent[b]
        vfs.FSX.touch(p)

    def rmtree(self, rel):
        p, b = vfs.FSX.parent(self.root + '/' + rel)
        del p.ent[b]
        vfs.FSX.touch(p)

    def settle(self, hard=False):
        """make sure later directory changes get a newer time stamp"""

    def exists(self, rel):
        return vfs.FSX.node(self.root + '/' + rel) is not None

    def files(self, rel=None):
        return vfs.FSX.h_files(self.root if rel is None else self.root + '/' + rel)

    def mode(self, rel):
        return vfs.FSX.node(self.root + '/' + rel).mode

    def fds(self):
        """descriptors and mappings of files below the root that are still open"""
        return len(vfs.FSX.fds) + len(vfs.FSX.maps)

    def ops(self):
        return vfs.FSX.ops

    # ---- faults, crashes, schedules
    def fault(self, at, short=None, span=None, maps=False):
        """the operation number `at` fails with EIO (and the span-1 following ones, if given); a write fails
        short by `short` bytes if that is given (only writes are hit then); maps: opening
        a pack or index file counts as well"""
        vfs.FSX.ops = 0
        vfs.FSX.fault = {'at': at, 'used': False, 'kind': 0 if short is None else 1, 'short': short, 'name': None, 'span': span, 'names': [], 'maps': maps}

    def nofault(self):
        f = vfs.FSX.fault
        vfs.FSX.fault = None
        return bool(f and f['used'])

    def fault_name(self):
        return vfs.FSX.fault and vfs.FSX.fault.get('name')

    def fault_names(self):
        return list(vfs.FSX.fault['names']) if vfs.FSX.fault else []

    def crashable(self, fn, at, cut=0):
        """run fn in a process that dies before its operation number `at` (a dying write
        leaves `cut` bytes).  'crashed' | 'done' | 'raised'"""
        fs = vfs.FSX
        fs.ops = 0
        fs.crash_at, fs.crash_cut = at, cut
        r = 'done'
        fds, maps = dict(fs.fds), dict(fs.maps)
        try:
            models.call(fn)
        except vfs.Crash:
            r = 'crashed'
        except Exception:
            r = 'raised'
        E.guard()
        if fs.frozen:
            r = 'crashed'
        fs.frozen = False
        fs.crash_at = None
        fs.fds, fs.maps = fds, maps
        return r

    def schedule(self, f0, f1, switches, watch=None, skip=False):
        """(skip: no switches at calls on the descriptor of a file that only its creator can know of)
        run both to completion under every interleaving of file system operations with at
        most `switches` context switches; watch is called before every operation.
        Returns [(result, exception)] * 2"""
        fs = vfs.FSX
        used = [0]

        def pick(n, cur):
            if n == 0:
                return self.conc(self.int('sched.first', 0, 1))
            if used[0] >= switches:
                return cur
            if bool(self.int('sched.%d' % n, 0, 1) == 1):
                used[0] += 1
                return 1 - cur
            return cur
        s = vfs.Scheduler(pick, limit=200)
        s.watch = watch
        s.skip = skip
        fs.sched = s
        try:
            res, exc = s.run(lambda: models.call(f0), lambda: models.call(f1))
        finally:
            fs.sched = None
        self.sched_trace = s.trace
        return list(zip(res, exc))
