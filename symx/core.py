"""Path-enumerating symbolic execution core.

One *path* is one execution of a harness body.  Every place where the outcome
depends on symbolic data asks the engine for a decision; the engine asks the SMT
solver which outcomes are possible under the path condition, follows one and
queues the others as decision prefixes.  Proof obligations are SMT queries over
*all* values that satisfy the path condition."""
import time
import z3

z3.set_param('smt.random_seed', 7)


class Control(BaseException):
    """engine control flow; never caught by 'except Exception' in the code under test"""


class PathEnd(Control):
    """the path is infeasible or was cut by an assumption"""


class Unsupported(Control):
    """symbolic data reached something that has no model"""

    def __init__(self, *a):
        Control.__init__(self, *a)
        if E.active and E.aborting is None:
            E.aborting = self


class LoopLimit(Control):
    """the path exceeded its step budget"""


class SxBug(Exception):
    """inconsistency inside the engine itself"""


class Cex:
    __slots__ = ('label', 'detail', 'inputs', 'kind', 'decisions', 'case')

    def __init__(self, label, detail, inputs, kind='check', decisions=None, case=None):
        self.label, self.detail, self.inputs, self.kind = label, detail, inputs, kind
        self.decisions, self.case = decisions, case


class SymBool:
    """a boolean formula.  neg, when given, is an equisatisfiable (skolemised) negation
    used when the formula appears as an obligation; pos may then be None"""
    __slots__ = ('e', 'neg')

    def __init__(self, e, neg=None):
        self.e = e
        self.neg = neg

    def __bool__(self):
        return E.branch_b(self)

    def __invert__(self):
        return b_not(self)

    def __and__(self, o):
        return b_and(self, o)
    __rand__ = __and__

    def __or__(self, o):
        return b_or(self, o)
    __ror__ = __or__

    def __eq__(self, o):
        if isinstance(o, (bool, SymBool)):
            return mk_bool(bexpr(self) == bexpr(o))
        if isinstance(o, int):
            return mk_bool(z3.If(bexpr(self), z3.IntVal(1), z3.IntVal(0)) == o)
        return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else b_not(r)

    def __hash__(self):
        return hash(bool(self))

    # bools are ints
    def _as_int(self):
        from .ints import ite
        return ite(self, 1, 0)

    def __add__(self, o):
        return self._as_int() + o
    __radd__ = __add__

    def __mul__(self, o):
        return self._as_int() * o
    __rmul__ = __mul__

    def __sub__(self, o):
        return self._as_int() - o

    def __rsub__(self, o):
        return o - self._as_int()

    def __int__(self):
        return int(bool(self))
    __index__ = __int__


TRUE, FALSE = z3.BoolVal(True), z3.BoolVal(False)


def bexpr(b):
    if isinstance(b, SymBool):
        if b.e is None:
            raise Unsupported('universally quantified equality used inside a formula')
        return b.e
    if z3.is_expr(b):
        return b
    return TRUE if b else FALSE


def mk_bool(e):
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return SymBool(e)


def b_not(b):
    if isinstance(b, SymBool):
        if b.neg is not None:
            return SymBool(b.neg, b.e if b.e is not None else None)
        return mk_bool(z3.Not(b.e))
    return not b


def negexpr(b):
    """formula satisfiable iff b can be false"""
    if isinstance(b, SymBool):
        if b.neg is not None:
            return b.neg
        return z3.Not(b.e)
    if z3.is_expr(b):
        return z3.Not(b)
    return FALSE if b else TRUE


def b_and(*bs):
    es, negs, quant = [], [], False
    for b in bs:
        if isinstance(b, bool):
            if not b:
                return False
            continue
        if isinstance(b, SymBool) and b.neg is not None:
            quant = True
        es.append(b)
    if not es:
        return True
    if len(es) == 1:
        return es[0]
    if quant:
        pos = None
        if all(x.e is not None for x in es):
            pos = z3.And([x.e for x in es])
        return SymBool(pos, z3.Or([negexpr(x) for x in es]))
    return mk_bool(z3.And([bexpr(x) for x in es]))


def b_or(*bs):
    es, quant = [], False
    for b in bs:
        if isinstance(b, bool):
            if b:
                return True
            continue
        if isinstance(b, SymBool) and b.neg is not None:
            quant = True
        es.append(b)
    if not es:
        return False
    if len(es) == 1:
        return es[0]
    if quant:
        pos = None
        if all(x.e is not None for x in es):
            pos = z3.Or([x.e for x in es])
        return SymBool(pos, z3.And([negexpr(x) for x in es]))
    return mk_bool(z3.Or([bexpr(x) for x in es]))


def b_implies(a, b):
    return b_or(b_not(a), b)


class Stats:
    def __init__(self):
        self.paths = self.decisions = self.queries = 0
        self.sat = self.unsat = self.unknown = 0
        self.obligations = self.discharged = 0
        self.solver_time = 0.0
        self.aborted = 0
        self.infeasible = 0
        self.unsupported = {}
        self.looplimit = 0
        self.reach = {}
        self.unknown_obligations = {}
        self.assumed_distinct = 0
        self.fns = set()

    def merge(self, o):
        for k in ('paths', 'decisions', 'queries', 'sat', 'unsat', 'unknown', 'obligations',
                  'discharged', 'solver_time', 'aborted', 'infeasible', 'looplimit', 'assumed_distinct'):
            setattr(self, k, getattr(self, k) + getattr(o, k))
        for k in ('unsupported', 'reach', 'unknown_obligations'):
            d = getattr(self, k)
            for a, b in getattr(o, k).items():
                d[a] = d.get(a, 0) + b
        self.fns |= o.fns


class Engine:
    alloc = None            # (limit, label) while memory use is judged

    def __init__(self):
        self.mode = 'int'
        self.stats = Stats()
        self.active = False
        self.timeout_ms = 20000
        self.max_steps = 4000
        self.solver = None
        self.aborting = None
        self.steps = 0
        self.reset_solver()

    # ------------------------------------------------------------ path set-up
    def reset_solver(self):
        if self.mode == 'bv':
            self.solver = z3.SolverFor('QF_BV')
        else:
            self.solver = z3.Solver()
        self.solver.set('timeout', self.timeout_ms)

    def start(self, prefix):
        self.reset_solver()
        from . import ints
        ints._ATOMS.clear()
        ints._DIVOF.clear()
        self.prefix = prefix
        self.pos = 0
        self.taken = []
        self.alts = []          # (prefix) alternatives found on this path
        self.cexs = []
        self.model = None
        self.steps = 0
        self.fresh_n = 0
        self.inputs = {}        # name -> reader(model) giving a json value
        self.input_order = []
        self.pinned = None
        self.sizes = []         # symbolic lengths of contents
        self.points = []        # (source, index expr) ground applications
        self.alloc = None       # (limit, label) while memory use is judged
        self.pc = []
        self.aborting = None
        self.active = True
        self.concl = {}
        self.nforced = 0

    def stop(self):
        self.active = False

    def guard(self):
        if self.active and self.aborting is not None:
            raise self.aborting

    def abort(self, exc):
        self.aborting = exc
        raise exc

    def unsupported(self, what):
        self.abort(Unsupported(what))

    def tick(self, n=1):
        if not self.active:
            return
        self.guard()
        self.steps += n
        if self.steps > self.max_steps:
            self.abort(LoopLimit('more than %d loop steps' % self.max_steps))

    def fresh(self, base):
        self.fresh_n += 1
        return '%s!%d' % (base, self.fresh_n)

    # ------------------------------------------------------------ solver
    def _add(self, e):
        self.solver.add(e)
        self.pc.append(e)

    def _check(self, *extra):
        t = time.time()
        r = self.solver.check(*extra)
        self.stats.solver_time += time.time() - t
        self.stats.queries += 1
        if r == z3.sat:
            self.stats.sat += 1
        elif r == z3.unsat:
            self.stats.unsat += 1
        else:
            self.stats.unknown += 1
        return r

    def _ensure_model(self):
        if self.model is None:
            r = self._check()
            if r == z3.unsat:
                self.abort(PathEnd('infeasible'))
            if r == z3.sat:
                self.model = self.solver.model()

    def _side(self, e):
        """is pc & e satisfiable?  returns (bool, model|None)"""
        self.solver.push()
        self.solver.add(e)
        r = self._check()
        m = self.solver.model() if r == z3.sat else None
        self.solver.pop()
        return r != z3.unsat, m

    # ------------------------------------------------------------ decisions
    def branch_b(self, b):
        if b.e is not None:
            return self.branch(b.e)
        # universally quantified equality: fork on the skolemised negation
        self.guard()
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
            self.pos += 1
            self.taken.append(d)
            if d[1] == 0:
                self._add(b.neg)
                self.model = None
                return False
            return True
        can, m = self._side(b.neg)
        if not can:
            self.taken.append(('q', 1))
            return True
        # the equal side cannot be stated without quantifiers: generic contents differ
        self.stats.assumed_distinct += 1
        self.stats.decisions += 1
        self.taken.append(('q', 0))
        self._add(b.neg)
        self.model = m
        return False

    def branch(self, e):
        self.guard()
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
            self.pos += 1
            self.taken.append(d)
            if d[0] != 'b':
                raise SxBug('decision replay mismatch at %d: %r' % (self.pos, d))
            v = d[1]
            if d[2]:
                self._add(e if v else z3.Not(e))
                self.model = None
            return bool(v)
        self._ensure_model()
        v = None
        if self.model is not None:
            mv = self.model.eval(e, model_completion=True)
            v = True if z3.is_true(mv) else False if z3.is_false(mv) else None
        ne = z3.Not(e)
        if v is None:
            ct, mt = self._side(e)
            cf, mf = self._side(ne)
        elif v:
            ct, mt = True, self.model
            cf, mf = self._side(ne)
        else:
            cf, mf = True, self.model
            ct, mt = self._side(e)
        if ct and cf:
            self.stats.decisions += 1
            # follow the side of the model we hold (stays valid), queue the other
            take = True if v is None else v
            self.alts.append(tuple(self.taken) + (('b', 0 if take else 1, 1),))
            self.taken.append(('b', 1 if take else 0, 1))
            self._add(e if take else ne)
            self.model = mt if take else mf
            return take
        if not ct and not cf:
            self.abort(PathEnd('infeasible'))
        self.nforced += 1
        self.taken.append(('b', 1 if ct else 0, 0))
        if self.model is None:
            self.model = mt if ct else mf
        return ct

    def choose(self, n, label=''):
        """unconstrained choice among n alternatives"""
        self.guard()
        if n <= 1:
            return 0
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
            self.pos += 1
            self.taken.append(d)
            if d[0] != 'c':
                raise SxBug('decision replay mismatch (choice)')
            return d[1]
        self.stats.decisions += 1
        for i in range(n - 1, 0, -1):
            self.alts.append(tuple(self.taken) + (('c', i),))
        self.taken.append(('c', 0))
        return 0

    def concretize(self, x, limit=300, what='value'):
        """fork over all values of the symbolic integer x"""
        from .ints import SymInt, eq
        if not isinstance(x, SymInt):
            return x
        self.guard()
        if x.lo is not None and x.lo == x.hi:
            return x.lo
        n = 0
        while True:
            n += 1
            if n > limit:
                self.unsupported('too many values for %s' % what)
            c = None
            if self.pos < len(self.prefix):
                d = self.prefix[self.pos]
                self.pos += 1
                self.taken.append(d)
                if d[0] != 'v':
                    raise SxBug('decision replay mismatch (value)')
                v, yes = d[1], d[2]
                c = bexpr(eq(x, v))
                self._add(c if yes else z3.Not(c))
                self.model = None
                if yes:
                    return v
                continue
            self._ensure_model()
            if self.model is None:
                self.unsupported('solver gave up while enumerating %s' % what)
            v = x.model_value(self.model)
            c = bexpr(eq(x, v))
            can, m = self._side(z3.Not(c))
            if can:
                self.stats.decisions += 1
                self.alts.append(tuple(self.taken) + (('v', v, 0),))
            self.taken.append(('v', v, 1))
            self._add(c)
            return v

    def pin(self, xs, what):
        """continue with one concrete value for each of the symbolic integers xs (an underapproximation:
        the path no longer stands for all of its inputs and is counted as undecided)"""
        from .ints import SymInt, eq
        self.guard()
        sym = [x for x in xs if isinstance(x, SymInt)]
        if not sym:
            return list(xs)
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
            self.pos += 1
            if d[0] != 'p' or len(d[1]) != len(sym):
                raise SxBug('decision replay mismatch (pin)')
            vals = d[1]
            self.taken.append(d)
            m = None
        else:
            self._ensure_model()
            if self.model is None:
                self.unsupported('solver gave up while pinning for ' + what)
            m = self._small(self.model)
            vals = tuple(x.model_value(m) for x in sym)
            self.taken.append(('p', vals))
        for x, v in zip(sym, vals):
            self._add(bexpr(eq(x, v)))
        self.model = m
        self.pinned = self.pinned or what
        it = iter(vals)
        return [next(it) if isinstance(x, SymInt) else x for x in xs]

    def assume(self, b):
        self.guard()
        if isinstance(b, SymBool) and b.e is None:
            raise Unsupported('assuming a quantified equality')
        e = bexpr(b)
        if z3.is_true(e):
            return
        if z3.is_false(e):
            self.abort(PathEnd('assumption'))
        self._add(e)
        if self.model is not None:
            if not z3.is_true(self.model.eval(e, model_completion=True)):
                self.model = None
        if self.pos >= len(self.prefix):
            self._ensure_model()

    def possible(self, b):
        e = bexpr(b)
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        if self.model is not None and z3.is_true(self.model.eval(e, model_completion=True)):
            return True
        return self._side(e)[0]

    def must(self, b):
        """is b valid under the path condition (no decision is taken)"""
        if isinstance(b, bool):
            return b
        return not self._side(negexpr(b))[0]

    # ------------------------------------------------------------ obligations
    def check(self, b, label, detail=None):
        """prove b for every value on this path; record a counterexample otherwise"""
        self.guard()
        if self.pos < len(self.prefix):
            # already discharged on the path this prefix was split from
            self._after_check(b, record=False)
            return
        self.stats.obligations += 1
        ne = negexpr(b)
        if z3.is_false(ne):
            self.stats.discharged += 1
            return
        self.solver.push()
        self.solver.add(ne)
        r = self._check()
        if r == z3.unsat:
            self.solver.pop()
            self.stats.discharged += 1
            return
        if r == z3.sat:
            m = self._small(self.solver.model())
            inp = self.read_inputs(m)
            self.solver.pop()
            d = detail(m) if callable(detail) else detail
            self.cexs.append(Cex(label, d, inp))
        else:
            self.solver.pop()
            k = '%s: solver returned unknown' % label
            self.stats.unknown_obligations[k] = self.stats.unknown_obligations.get(k, 0) + 1
        self._after_check(b, True)

    def _after_check(self, b, record):
        # go on under the assumption that it holds
        if isinstance(b, SymBool):
            if b.e is None:
                return
            e = b.e
        elif b is True:
            return
        elif b is False:
            if self.pos < len(self.prefix):
                return
            self.abort(PathEnd('obligation failed on all values'))
        else:
            e = bexpr(b)
        if not record:
            return
        ok, m = self._side(e)
        if not ok:
            self.abort(PathEnd('obligation failed on all values'))

    def learn(self, b, label):
        """check b and use it as a lemma from here on"""
        self.check(b, label)
        if isinstance(b, SymBool) and b.e is not None:
            self._add(b.e)

    def note(self, n):
        """n bytes were allocated in one piece"""
        if self.alloc is not None:
            lim, label = self.alloc
            if not isinstance(n, int) or n > lim:
                self.alloc = None
                self.check(n <= lim, label)
                self.alloc = lim, label

    def fail(self, label, detail=None):
        self.check(False, label, detail)

    def reach(self, label):
        self.stats.reach[label] = self.stats.reach.get(label, 0) + 1

    # ------------------------------------------------------------ inputs
    def add_input(self, name, reader):
        if name in self.inputs:
            raise SxBug('input %s declared twice' % name)
        self.inputs[name] = reader
        self.input_order.append(name)

    def read_inputs(self, m):
        return {n: self.inputs[n](m) for n in self.input_order}

    def witness(self):
        """inputs of one concrete execution that follows this path, or None"""
        if self.model is None:
            r = self._check()
            if r != z3.sat:
                return None
            self.model = self.solver.model()
        return self.read_inputs(self._small(self.model))

    def _small(self, m):
        """a model of the asserted formulas whose contents are small enough to be replayed quickly, if there is one"""
        try:
            for bound in (70000, 1 << 21, 1 << 25):
                if all(n.model_value(m) <= bound for n in self.sizes):
                    return m
                self.solver.push()
                try:
                    for n in self.sizes:
                        self.solver.add(bexpr(n <= bound))
                    if self._check() == z3.sat:
                        return self.solver.model()
                finally:
                    self.solver.pop()
        except z3.Z3Exception:
            pass
        return m


E = Engine()
