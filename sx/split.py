"""Decides obligations over few inputs by splitting on the conditions they
contain: every condition is settled by the solver under the constraints of
the region reached so far, or the region is divided in two. What is left in
a region is free of case distinctions and goes to the solver as it is.

Integers are treated as reals here, and a region whose candidate has a
fractional one is divided at that value (branch and bound)."""
import math
import time

import z3


class GiveUp(Exception):
    pass


def atoms(es, lim=200000):
    """conditions (ite-free boolean atoms) occurring in es, and ite flags"""
    memo = {}
    order = []
    todo = [(e, False) for e in es]
    n = 0
    while todo:
        e, done = todo.pop()
        i = e.get_id()
        if done:
            k = e.decl().kind()
            hasite = any(memo[c.get_id()] for c in e.children()) or (
                k == z3.Z3_OP_ITE and not z3.is_bool(e))
            memo[i] = hasite
            if z3.is_bool(e) and k in (z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT,
                                       z3.Z3_OP_GT, z3.Z3_OP_EQ,
                                       z3.Z3_OP_UNINTERPRETED) and \
                    not hasite and not (k == z3.Z3_OP_EQ and
                                        z3.is_bool(e.children()[0])):
                order.append(e)
            continue
        if i in memo:
            continue
        n += 1
        if n > lim:
            raise GiveUp('formula too large')
        memo[i] = False
        if not z3.is_app(e):
            raise GiveUp('quantifier')
        todo.append((e, True))
        todo.extend((c, False) for c in e.children())
    return order


def conds(es):
    """ite-free atoms inside the conditions of the ites of es"""
    seen, todo, cs = set(), list(es), []
    while todo:
        e = todo.pop()
        if e.get_id() in seen:
            continue
        seen.add(e.get_id())
        if e.decl().kind() == z3.Z3_OP_ITE:
            cs.append(e.children()[0])
        todo.extend(e.children())
    return atoms(cs) if cs else []


def relax(es):
    """the formulas with integer inputs as reals, or None"""
    memo = {}
    back = {}

    def go(e):
        i = e.get_id()
        if i in memo:
            return memo[i]
        k = e.decl().kind()
        ch = e.children()
        if k == z3.Z3_OP_TO_REAL:
            r = go(ch[0])
        elif z3.is_int_value(e):
            r = z3.RealVal(e.as_long())
        elif k == z3.Z3_OP_UNINTERPRETED and not ch and z3.is_int(e):
            r = z3.Real(e.decl().name() + '~')
            back[r.get_id()] = (r, e)
        elif k in (z3.Z3_OP_TO_INT, z3.Z3_OP_IDIV, z3.Z3_OP_MOD,
                   z3.Z3_OP_REM, z3.Z3_OP_IS_INT):
            raise GiveUp('integer operation')
        elif not ch:
            r = e
        else:
            c = [go(x) for x in ch]
            if all(a.eq(b) for a, b in zip(c, ch)):
                r = e
            elif k == z3.Z3_OP_ADD:
                r = z3.Sum(c)
            elif k == z3.Z3_OP_MUL:
                r = z3.Product(c)
            elif k == z3.Z3_OP_SUB:
                r = c[0]
                for x in c[1:]:
                    r = r - x
            elif k == z3.Z3_OP_UMINUS:
                r = -c[0]
            elif k == z3.Z3_OP_ITE:
                r = z3.If(c[0], c[1], c[2])
            elif k == z3.Z3_OP_LE:
                r = c[0] <= c[1]
            elif k == z3.Z3_OP_GE:
                r = c[0] >= c[1]
            elif k == z3.Z3_OP_LT:
                r = c[0] < c[1]
            elif k == z3.Z3_OP_GT:
                r = c[0] > c[1]
            elif k == z3.Z3_OP_EQ:
                r = c[0] == c[1]
            elif k == z3.Z3_OP_DIV:
                r = c[0] / c[1]
            elif k == z3.Z3_OP_DISTINCT:
                r = z3.Distinct(*c)
            elif k == z3.Z3_OP_POWER:
                r = c[0] ** c[1]
            else:
                r = e.decl()(*c)
        memo[i] = r
        return r
    import sys
    old = sys.getrecursionlimit()
    sys.setrecursionlimit(max(old, 20000))
    try:
        return [go(e) for e in es], back
    finally:
        sys.setrecursionlimit(old)


class Splitter:
    def __init__(self, base, stats, limit, ints=()):
        self.stats = stats
        self.ints = list(ints)
        self.t_end = time.time() + limit
        self.regions = 0
        self.base = base

    def solver(self, pc):
        s = z3.Then('simplify', 'purify-arith', 'propagate-values',
                    'solve-eqs', 'qfnra-nlsat').solver()
        s.set('timeout', 3000)
        s.add(*pc)
        return s

    def sat(self, pc, e=None):
        """'sat' | 'unsat' | 'unknown'; remembers models"""
        if time.time() > self.t_end:
            raise GiveUp('time')
        t0 = time.time()
        self.stats.queries += 1
        self.last = None
        try:
            s = self.solver(pc + ([e] if e is not None else []))
            r = s.check()
            if r == z3.sat:
                self.last = s.model()
                return 'sat'
            if r == z3.unsat:
                return 'unsat'
        except z3.Z3Exception:
            pass
        finally:
            self.stats.solver_s += time.time() - t0
        s = z3.Solver()
        s.set('timeout', 3000)
        s.add(*pc)
        if e is not None:
            s.add(e)
        r = s.check()
        if r == z3.sat:
            self.last = s.model()
            return 'sat'
        return 'unsat' if r == z3.unsat else 'unknown'

    def run(self, pc, obls, models=()):
        """-> list of (region constraints, obligation) that may fail"""
        models = list(models)
        while True:
            obls = [(lab, z3.simplify(e)) for lab, e in obls]
            bad = [(pc, lab, e) for lab, e in obls if z3.is_false(e)]
            if bad:
                return bad
            obls = [(lab, e) for lab, e in obls if not z3.is_true(e)]
            if not obls:
                self.regions += 1
                return []
            cs = conds([e for _, e in obls])
            if not cs:
                break
            sub = []
            und = None
            for a in cs:
                seen = set()
                for m in models:
                    v = m.eval(a, model_completion=True)
                    if z3.is_true(v):
                        seen.add(True)
                    elif z3.is_false(v):
                        seen.add(False)
                if len(seen) == 2:
                    und = a if und is None else und
                    continue
                r = {}
                for val, e in ((True, a), (False, z3.Not(a))):
                    if val in seen:
                        r[val] = 'sat'
                        continue
                    r[val] = self.sat(pc, e)
                    if self.last is not None:
                        models.append(self.last)
                        del models[:-30]
                if r[True] == 'unsat' and r[False] == 'unsat':
                    self.regions += 1
                    return []           # empty region
                if r[True] == 'unsat':
                    sub.append((a, z3.BoolVal(False)))
                elif r[False] == 'unsat':
                    sub.append((a, z3.BoolVal(True)))
                elif und is None:
                    und = a
            if sub:
                obls = [(lab, z3.substitute(e, *sub)) for lab, e in obls]
                continue
            out = []
            for e in (und, z3.Not(und)):
                q = pc + [e]
                ms = [m for m in models if z3.is_true(
                    m.eval(e, model_completion=True))]
                out += self.run(q, [(lab, z3.substitute(
                    o, (und, z3.BoolVal(e is und)))) for lab, o in obls], ms)
                if out:
                    return out
            return out
        self.regions += 1
        box = self.box(pc, models)
        if box is None:
            return []
        fixed = [(x, lo) for x, lo, hi in box if lo is not None and
                 lo.eq(hi)]
        obls = [(lab, z3.simplify(z3.substitute(e, *fixed)))
                for lab, e in obls]
        bs = [b for x, lo, hi in box for b in
              ([] if lo is None else [x >= lo]) +
              ([] if hi is None else [x <= hi])]
        out = []
        for lab, e in obls:
            if z3.is_true(e) or self.sat(bs, z3.Not(e)) == 'unsat':
                continue
            if self.sat(pc + bs, z3.Not(e)) == 'unsat':
                continue
            r = self.sat(self.base + pc + bs, z3.Not(e))
            if r == 'unsat':
                continue
            cut = self.fractional(self.last) if r == 'sat' else None
            if cut is None:
                return [(pc, lab, e)]
            for b in cut:
                out += self.run(pc + [b], [(lab, e)])
                if out:
                    return out
        return out

    def light(self):
        """the range of every input on this path, and the definitions of
        the other integers: weaker than the path's constraints, which are
        consulted again before anything is reported"""
        box = self.box(self.base, [])
        if box is None:
            return [z3.BoolVal(False)]
        out, aux = [], set()
        for x, lo, hi in box:
            out += ([] if lo is None else [x >= lo]) + (
                [] if hi is None else [x <= hi])
            if x.decl().name().startswith('!'):
                aux.add(x.get_id())
        if not aux:
            return out
        for e in self.base:
            todo, seen = [e], set()
            while todo:
                t = todo.pop()
                if t.get_id() in aux:
                    out.append(e)
                    break
                if t.get_id() not in seen:
                    seen.add(t.get_id())
                    todo.extend(t.children())
        return out

    def box(self, pc, models):
        """bounds of every integer in a region, or None: no integer there"""
        out = []
        for x in self.ints:
            vals = []
            for m in models:
                v = m.eval(x)
                if z3.is_rational_value(v) and v.denominator_as_long() == 1:
                    vals.append(v.as_fraction())
            if not vals:
                r = self.sat(pc)
                if r == 'unsat':
                    return None
                v = self.last and self.last.eval(x)
                if v is None or not z3.is_rational_value(v):
                    out.append((x, None, None))
                    continue
                vals = [v.as_fraction()]
            ends = []
            for sg in (-1, 1):
                # furthest value in this direction
                a = int(max(sg * v // 1 for v in vals))
                step = 1
                b = None
                while b is None and step < 10 ** 7:
                    if self.sat(pc, sg * x >= a + step) == 'unsat':
                        b = a + step
                    else:
                        a, step = a + step, step * 4
                if b is None:
                    ends.append(None)
                    continue
                while b - a > 1:
                    k = (a + b) // 2
                    if self.sat(pc, sg * x >= k) == 'unsat':
                        b = k
                    else:
                        a = k
                ends.append(z3.RealVal(sg * a))
            lo, hi = ends
            if lo is not None and hi is not None and z3.is_true(
                    z3.simplify(lo > hi)):
                return None
            out.append((x, lo, hi))
        return out

    def fractional(self, m):
        """two halves that exclude a fractional value of an integer"""
        for x in self.ints:
            v = m.eval(x)
            if z3.is_algebraic_value(v):
                v = v.approx(20)
            elif not z3.is_rational_value(v):
                continue
            elif v.denominator_as_long() == 1:
                continue
            f = math.floor(v.as_fraction())
            return x <= f, x >= f + 1
        return None


def decide(base, obls, stats, limit):
    """-> ('unsat', regions) or ('unknown', obligations that may fail)"""
    try:
        es, back = relax(list(base) + [e for _, e in obls])
        n = len(base)
        sp = Splitter(es[:n], stats, limit, [r for r, _ in back.values()])
        bad = sp.run(sp.light(), [(lab, e) for (lab, _), e in
                                    zip(obls, es[n:])])
    except (GiveUp, z3.Z3Exception, RecursionError) as ex:
        return 'unknown', str(ex)
    if bad:
        return 'unknown', ', '.join(lab for _, lab, _ in bad[:3])
    return 'unsat', sp.regions
