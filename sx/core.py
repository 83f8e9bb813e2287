"""Path exploration: decisions, feasibility, obligations, solver access."""
import time
from fractions import Fraction

import z3


class Steer(BaseException):
    """Base of the engine's control-flow exceptions (never caught by repo)."""


class PathInfeasible(Steer):
    pass


class Unsupported(Steer):
    """The shim cannot execute an operation symbolically."""


class BoundHit(Steer):
    """A stated bound (concretisation fan-out, path length) was exceeded."""


CTX = None


def ctx():
    if CTX is None:
        raise Unsupported('symbolic value used outside an exploration')
    return CTX


def set_ctx(c):
    global CTX
    CTX = c


class Stats:
    def __init__(self):
        self.paths = 0
        self.decisions = 0
        self.queries = 0
        self.solver_s = 0.0
        self.obligations = 0
        self.unknown_feas = 0

    def as_dict(self):
        return dict(self.__dict__)


_AUX = [0]


def is_hard(assertions, lim=4000):
    """True if some assertion multiplies or divides symbolic terms."""
    seen = set()
    todo = list(assertions)
    n = 0
    while todo and n < lim:
        e = todo.pop()
        i = e.get_id()
        if i in seen:
            continue
        seen.add(i)
        n += 1
        if z3.is_app(e):
            k = e.decl().kind()
            if k == z3.Z3_OP_MUL:
                syms = [c for c in e.children() if not z3.is_rational_value(c)
                        and not z3.is_int_value(c)]
                if len(syms) > 1:
                    return True
            elif k in (z3.Z3_OP_DIV, z3.Z3_OP_IDIV, z3.Z3_OP_MOD,
                       z3.Z3_OP_POWER):
                d = e.children()[1]
                if not (z3.is_rational_value(d) or z3.is_int_value(d)):
                    return True
            todo.extend(e.children())
    return False


def check_sat(assertions, timeout_ms, stats=None, want_model=True):
    """Decide a conjunction. Returns ('sat', model) | ('unsat', None) |
    ('unknown', None). Tries several z3 engines, then cvc5."""
    t0 = time.time()
    try:
        if stats is not None:
            stats.queries += 1
        s = z3.Solver()
        s.set('timeout', int(max(200, timeout_ms * 0.35)))
        s.add(*assertions)
        r = s.check()
        if r == z3.sat:
            return 'sat', s.model()
        if r == z3.unsat:
            return 'unsat', None
        for tac in (('simplify', 'solve-eqs', 'propagate-values', 'smt'),
                    ('simplify', 'purify-arith', 'propagate-values',
                     'solve-eqs', 'elim-term-ite', 'qfnra-nlsat')):
            try:
                s = z3.Then(*tac).solver()
                s.set('timeout', int(max(200, timeout_ms * 0.3)))
                s.add(*assertions)
                r = s.check()
                if r == z3.sat:
                    return 'sat', s.model()
                if r == z3.unsat:
                    return 'unsat', None
            except z3.Z3Exception:
                pass
        r = cvc5_check(assertions, int(max(500, timeout_ms * 0.5)))
        if r == 'unsat':
            return 'unsat', None
        return 'unknown', None
    finally:
        if stats is not None:
            stats.solver_s += time.time() - t0


def contradiction(e, stats=None):
    """True if z3's contextual simplifier alone refutes e"""
    t0 = time.time()
    try:
        for som in (False, True):
            g = z3.Goal()
            g.add(e)
            o = z3.With('simplify', sort_sums=True, som=som, som_blowup=30)
            t = z3.TryFor(z3.Then(o, 'ctx-simplify', o), 2000)
            try:
                r = t(g)
                if len(r) == 1 and r[0].inconsistent():
                    return True
            except z3.Z3Exception:
                pass
        return False
    finally:
        if stats is not None:
            stats.solver_s += time.time() - t0


def cvc5_check(assertions, timeout_ms):
    """Second solver; only its 'unsat' answers are used."""
    try:
        import cvc5
    except Exception:
        return 'unknown'
    try:
        s = z3.Solver()
        s.add(*assertions)
        txt = '(set-logic ALL)\n' + s.to_smt2()
        sl = cvc5.Solver()
        sl.setOption('tlimit-per', str(timeout_ms))
        sl.setOption('nl-cov', 'true') if False else None
        ip = cvc5.InputParser(sl)
        ip.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, txt, 'q')
        sm = ip.getSymbolManager()
        res = None
        while True:
            cmd = ip.nextCommand()
            if cmd.isNull():
                break
            out = cmd.invoke(sl, sm)
            if out and out.strip() in ('sat', 'unsat', 'unknown'):
                res = out.strip()
        return res or 'unknown'
    except Exception:
        return 'unknown'


_SIMP = {}


def simp(e):
    """z3.simplify. z3 orders arguments by their ids: terms simplified on
    one path stay alive, so that the same test is the same term on the
    next path"""
    k = e.get_id()
    r = _SIMP.get(k)
    if r is None:
        r = z3.simplify(e)
        _SIMP[k] = e, r
        _SIMP[r.get_id()] = r, r
        return r
    return r[1]


class Ctx:
    """One exploration task. `run_path` is re-executed per path."""

    def __init__(self, feas_ms=3000, obl_ms=20000, max_paths=20000,
                 fan=80, deadline=None):
        self.stats = Stats()
        self.feas_ms = feas_ms
        self.obl_ms = obl_ms
        self.max_paths = max_paths
        self.fan = fan
        self.deadline = deadline
        self.reset([])

    # -- per path -----------------------------------------------------
    def reset(self, prefix):
        self.prefix = prefix
        self.trail = []          # (choice, has_alternative)
        self.pc = []             # path constraints + definitions
        self.defs = set()        # indices of the definitions in pc
        self.pckeys = []
        self.solver = z3.Solver()
        self.solver.set('timeout', self.feas_ms)
        self.model = None
        self.cache = {}
        self.keep = []
        self.obls = []           # (label, expr)
        self.ranges = {}         # id of an input -> (lo, hi, keep alive)
        self.inputs = {}         # name -> (kind, exprs..)
        self.observed = []
        self.aux = {}
        self.naux = 0
        self.guard = None
        self.rounding = None
        self.nl = False

    def add(self, e, check=False):
        """Assert a constraint on the current path."""
        if e is True:
            return
        if e is False:
            raise PathInfeasible()
        e = simp(e)
        if z3.is_true(e):
            return
        if z3.is_false(e):
            raise PathInfeasible()
        self.pc.append(e)
        self.solver.add(e)
        if self.model is not None:
            try:
                if not z3.is_true(self.model.eval(e, model_completion=True)):
                    self.model = None
            except z3.Z3Exception:
                self.model = None

    def define(self, e):
        """Add a total definition of an auxiliary variable."""
        self.defs.add(len(self.pc))
        self.pc.append(e)
        self.solver.add(e)
        self.model = None

    def fresh(self, base, sort):
        self.naux += 1
        return z3.Const('!%s_%d' % (base, self.naux), sort)

    def _feasible(self, e):
        if self.model is not None:
            try:
                if z3.is_true(self.model.eval(e, model_completion=True)):
                    return 'sat'
            except z3.Z3Exception:
                pass
        t0 = time.time()
        self.stats.queries += 1
        self.solver.push()
        self.solver.add(e)
        r = self.solver.check()
        if r == z3.sat:
            m = self.solver.model()
        self.solver.pop()
        self.stats.solver_s += time.time() - t0
        if r == z3.sat:
            self.model = m
            return 'sat'
        if r == z3.unsat:
            return 'unsat'
        r, m = check_sat(self.pc + [e], self.feas_ms * 2, self.stats)
        if r == 'sat':
            self.model = m
        if r == 'unknown':
            self.stats.unknown_feas += 1
        return r

    def feasible(self, e):
        """May `e` hold on this path? (unknown counts as yes)"""
        if isinstance(e, bool):
            return e
        e = simp(e)
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        return self._feasible(e) != 'unsat'

    def few(self, e, n):
        """has e at most n values on this path?"""
        k = ('few', e.get_id(), n)
        if k in self.cache:
            return self.cache[k]
        self.solver.push()
        ok = False
        try:
            for _ in range(n + 1):
                self.stats.queries += 1
                r = self.solver.check()
                if r != z3.sat:
                    ok = r == z3.unsat
                    break
                v = self.solver.model().eval(e, model_completion=True)
                self.solver.add(e != v)
        finally:
            self.solver.pop()
        self.keep.append(e)
        self.cache[k] = ok
        return ok

    def replay(self, i, e):
        """the choice made at this point of an earlier path"""
        c, h = self.prefix[i]
        if h != e.hash():
            raise Unsupported('a path that does not repeat itself')
        return c

    def decide(self, e):
        if isinstance(e, bool):
            return e
        e = simp(e)
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        k = e.get_id()
        if k in self.cache:
            return self.cache[k]
        ne = simp(z3.Not(e))
        if self.deadline and time.time() > self.deadline:
            raise BoundHit('time budget of the task')
        i = len(self.trail)
        if i < len(self.prefix):
            c = self.replay(i, e)
            alt = False
        else:
            self.stats.decisions += 1
            f = self._feasible(e)
            if f == 'unsat':
                c, alt = False, False
            else:
                g = self._feasible(ne)
                if g == 'unsat':
                    c, alt = True, False
                else:
                    c, alt = True, True
        self.trail.append((c, alt, e.hash()))
        self.add(e if c else ne)
        self.keep.append((e, ne))
        self.cache[k] = c
        self.cache[ne.get_id()] = not c
        return c

    def concretize(self, e):
        """Fork on the integer value of e."""
        e = simp(e)
        if z3.is_int_value(e):
            return e.as_long()
        k = ('c', e.get_id())
        if k in self.cache:
            return self.cache[k]
        for _ in range(self.fan):
            # smallest value first would need optimisation: any value does,
            # but it must be the same one on replay, so it goes in the trail
            i = len(self.trail)
            if i < len(self.prefix):
                c, v = self.replay(i, e)
                alt = False
            else:
                self.stats.decisions += 1
                r = self._feasible(z3.BoolVal(True)) \
                    if self.model is None else 'sat'
                if r != 'sat':
                    if r == 'unsat':
                        raise PathInfeasible()
                    raise BoundHit('solver gave no value to concretise')
                v = self.model.eval(e, model_completion=True)
                if not z3.is_int_value(v):
                    raise BoundHit('no integer value')
                v = v.as_long()
                c = True
                alt = self._feasible(e != v) != 'unsat'
            self.trail.append(((c, v), alt, e.hash()))
            if c:
                self.add(e == v)
                self.keep.append(e)
                self.cache[k] = v
                return v
            self.add(e != v)
        raise BoundHit('integer fan-out > %d' % self.fan)

    def explore(self, run_path):
        """Depth-first over all paths; yields after each completed path."""
        set_ctx(self)
        stack = [[]]
        complete = True
        try:
            while stack:
                if self.stats.paths >= self.max_paths or (
                        self.deadline and time.time() > self.deadline):
                    complete = False
                    self.reset([])
                    yield ('bound', 'path budget (%d explored, %d pending)' %
                           (self.stats.paths, len(stack)))
                    break
                self.reset(stack.pop())
                npre = len(self.prefix)
                status, info = 'ok', None
                try:
                    run_path()
                except PathInfeasible:
                    status = 'infeasible'
                except Unsupported as ex:
                    status, info = 'unsupported', ex
                except BoundHit as ex:
                    status, info = 'bound', str(ex)
                except (Exception, SystemExit) as ex:  # the repo's code raised
                    status, info = 'exception', ex
                for i in range(len(self.trail) - 1, npre - 1, -1):
                    c, alt, h = self.trail[i]
                    if alt:
                        if isinstance(c, tuple):
                            other = (False, c[1])
                        else:
                            other = not c
                        stack.append([(t[0], t[2]) for t in self.trail[:i]] +
                                     [(other, h)])
                if status != 'infeasible':
                    self.stats.paths += 1
                    yield (status, info)
        finally:
            set_ctx(None)
        self.complete = complete


UFNAMES = ('LOG', 'EXP', 'ATAN', 'ATAN2', 'POW', 'COS', 'SIN', 'TAN')


def aux_keys(e):
    """ids of the auxiliary constants and function applications in e"""
    seen, todo, out = set(), [e], set()
    while todo:
        x = todo.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_app(x):
            d = x.decl()
            if d.kind() == z3.Z3_OP_UNINTERPRETED:
                n = d.name()
                if x.num_args() == 0:
                    if n.startswith('!'):
                        out.add(i)
                elif n in UFNAMES:
                    out.add(i)
            todo.extend(x.children())
    return out


def cone(c, e):
    """Indices of the constraints of the path that bear on e: dropping the
    others can only lose an 'unsat' answer, never make one wrong."""
    while len(c.pckeys) < len(c.pc):
        c.pckeys.append(aux_keys(c.pc[len(c.pckeys)]))
    keys = aux_keys(e)
    inc = {i for i, k in enumerate(c.pckeys) if not k}
    if all(inc_ in inc for inc_ in range(len(c.pc))):
        return inc
    grow = True
    while grow:
        grow = False
        for i, k in enumerate(c.pckeys):
            if i not in inc and k & keys:
                inc.add(i)
                keys |= k
                grow = True
    return inc


def frac(x):
    """Exact decimal meaning of a Python/numpy number as written; a number
    within rounding of a small fraction (1/6 ...) is taken as the fraction"""
    if isinstance(x, Fraction):
        return x
    if isinstance(x, bool):
        return Fraction(int(x))
    if isinstance(x, int):
        return Fraction(x)
    f = Fraction(repr(float(x)))
    if f.denominator > 10 ** 12:
        g = f.limit_denominator(1000)
        if g and abs(g - f) <= abs(f) * Fraction(3, 10 ** 16):
            return g
    return f


def z3num_to_frac(v):
    if z3.is_int_value(v):
        return Fraction(v.as_long())
    if z3.is_rational_value(v):
        return Fraction(v.numerator_as_long(), v.denominator_as_long())
    if z3.is_algebraic_value(v):
        a = v.approx(30)
        return Fraction(a.numerator_as_long(), a.denominator_as_long())
    raise ValueError('no numeric value: %s' % v)
