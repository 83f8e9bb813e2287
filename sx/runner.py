"""Runs the tasks of one property: symbolic exploration, solver queries,
replay of counterexamples on the real code, evidence."""
import contextlib
import importlib
import json
import os
import pickle
import random
import re
import shutil
import signal
import sys
import tempfile
import time
import traceback
from fractions import Fraction

import z3

from . import REPO
from . import core
from . import env as E
from . import split
from . import vals as V
from .core import check_sat, z3num_to_frac

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.environ.get('SX_EVID', os.path.join(HERE, 'evidence'))
KNOWN = os.path.join(HERE, 'known_findings.txt')
UFS = ('LOG', 'EXP', 'ATAN', 'ATAN2', 'POW', 'COS', 'SIN', 'TAN')


class Task:
    """One exploration: harness fn(env, **params) within stated bounds."""

    def __init__(self, name, fn, params=None, bounds='', feas_ms=3000,
                 obl_ms=20000, max_paths=20000, fan=80, budget=None,
                 validate=3, rounding=None, exact=False, fallback=True,
                 split=2):
        self.name = name
        self.fn = fn
        self.params = params or {}
        self.bounds = bounds
        self.feas_ms = feas_ms
        self.obl_ms = obl_ms
        self.max_paths = max_paths
        self.fan = fan
        self.budget = budget
        self.validate = validate
        self.rounding = rounding
        self.exact = exact
        self.fallback = fallback
        self.split = split


# -- models -------------------------------------------------------------
def val_of(model, kind, x):
    if kind == 'real':
        n = x.n
        if n is not False and (n is True or z3.is_true(
                model.eval(n, model_completion=True))):
            return None
        return z3num_to_frac(model.eval(x.v, model_completion=True))
    if kind == 'int':
        return model.eval(x.e, model_completion=True).as_long()
    if kind == 'bool':
        return bool(z3.is_true(model.eval(x.e, model_completion=True)))
    raise ValueError(kind)


def extract(model, inputs):
    return {k: val_of(model, kind, x) for k, (kind, x) in inputs.items()}


def pin(inputs, vals):
    out = []
    for k, v in vals.items():
        kind, x = inputs[k]
        if kind == 'real':
            if v is None:
                out.append(V.zb(x.n))
                continue
            if x.n is not False:
                out.append(z3.Not(V.zb(x.n)))
            out.append(x.v == V.rv(Fraction(v)))
        elif kind == 'int':
            out.append(x.e == v)
        else:
            out.append(x.e if v else z3.Not(x.e))
    return out


def quantise(assertions, inputs, model, stats, limit=10.0):
    """Prefer float-representable input values in a counterexample."""
    vals = extract(model, inputs)
    t0 = time.time()
    for den in (1, 64, 4096):
        q = {k: (Fraction(round(v * den), den)
                 if isinstance(v, Fraction) else v)
             for k, v in vals.items()}
        if q == vals:
            return vals, model
        r, m = check_sat(assertions + pin(inputs, q), 2000, stats)
        if r == 'sat':
            return q, m
        if time.time() - t0 > limit:
            break
    # one value at a time
    fixed = []
    out = dict(vals)
    for k, v in vals.items():
        if time.time() - t0 > limit:
            break
        if not isinstance(v, Fraction) or v.denominator in (
                1, 2, 4, 8, 16, 32, 64):
            continue
        for den in (64, 65536):
            p = pin(inputs, {k: Fraction(round(v * den), den)})
            r, m = check_sat(assertions + fixed + p, 1500, stats)
            if r == 'sat':
                fixed += p
                model = m
                out = extract(m, inputs)
                break
    return out, model


def uf_apps(exprs):
    seen, todo, out = set(), list(exprs), []
    while todo:
        e = todo.pop()
        i = e.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_app(e):
            if e.num_args() and e.decl().name() in UFS and \
                    e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out.append(e)
            todo.extend(e.children())
    return out


def true_val(name, a):
    import math
    try:
        a = [float(x) for x in a]
        r = {'LOG': lambda: math.log(a[0]), 'EXP': lambda: math.exp(a[0]),
             'ATAN': lambda: math.atan(a[0]),
             'ATAN2': lambda: math.atan2(a[0], a[1]),
             'POW': lambda: a[0] ** a[1], 'COS': lambda: math.cos(a[0]),
             'SIN': lambda: math.sin(a[0]),
             'TAN': lambda: math.tan(a[0])}[name]()
        return Fraction(r)
    except Exception:
        return None


def refine(assertions, model):
    """True facts about the functions applied, at the points of a model."""
    lem = []
    eps = Fraction(1, 10 ** 9)
    for t in uf_apps(assertions):
        args = [model.eval(c, model_completion=True) for c in t.children()]
        try:
            av = [z3num_to_frac(a) for a in args]
        except ValueError:
            continue
        tv = true_val(t.decl().name(), av)
        if tv is None:
            continue
        lo, hi = V.rv(tv - eps), V.rv(tv + eps)
        if t.decl().name() in ('LOG', 'EXP', 'ATAN'):
            x = t.children()[0]
            lem.append(z3.Implies(x >= V.rv(av[0]), t >= lo))
            lem.append(z3.Implies(x <= V.rv(av[0]), t <= hi))
        else:
            lem.append(z3.Implies(
                z3.And(*[c == V.rv(a) for c, a in zip(t.children(), av)]),
                z3.And(t >= lo, t <= hi)))
    return lem


# -- concrete runs ------------------------------------------------------
def enc(v):
    if isinstance(v, Fraction):
        return {'q': str(v)}
    return v


def dec(v):
    return Fraction(v['q']) if isinstance(v, dict) else v


def simple(v):
    """observed values -> nested plain data"""
    import numpy as np
    if isinstance(v, np.ma.MaskedArray):
        v = v.filled(np.nan)
    if isinstance(v, np.ndarray):
        return v.tolist()
    if isinstance(v, (list, tuple)):
        return [simple(x) for x in v]
    if isinstance(v, np.generic):
        return v.item()
    return v


def concrete(task, inputs=None, seed=None, timeout=60, tries=1,
             budget=None):
    """Run the harness on the real code in a forked child.

    Returns dict(status: ok|failed|exception|assume|mismatch|timeout|crash,
    failed, error, used, observed)."""
    fd, out = tempfile.mkstemp(prefix='sxr_')
    os.close(fd)
    pid = os.fork()
    if pid == 0:
        core.set_ctx(None)
        code = 3
        try:
            os.setpgid(0, 0)
            sys.dont_write_bytecode = True
            dn = os.open(os.devnull, os.O_RDWR)
            os.dup2(dn, 1)
            os.dup2(dn, 2)
            res = _concrete_child(task, inputs, seed, tries, budget)
            with open(out, 'wb') as f:
                pickle.dump(res, f)
            code = 0
        except BaseException:
            try:
                with open(out, 'wb') as f:
                    pickle.dump(dict(status='crash',
                                     error=traceback.format_exc()), f)
                code = 0
            except BaseException:
                pass
        finally:
            os._exit(code)
    t0 = time.time()
    while True:
        p, st = os.waitpid(pid, os.WNOHANG)
        if p:
            break
        if time.time() - t0 > timeout:
            try:
                os.killpg(pid, signal.SIGKILL)
            except OSError:
                os.kill(pid, signal.SIGKILL)
            os.waitpid(pid, 0)
            os.unlink(out)
            sweep(pid)
            return dict(status='timeout', error='no end after %ds' % timeout,
                        used=inputs or {}, failed=[], observed=[])
        time.sleep(0.003)
    try:
        with open(out, 'rb') as f:
            res = pickle.load(f)
    except Exception:
        res = dict(status='crash', error='child ended with %s' % st)
    os.unlink(out)
    res.setdefault('failed', [])
    res.setdefault('observed', [])
    res.setdefault('used', inputs or {})
    return res


def sweep(pid):
    d = os.path.join(tempfile.gettempdir(), 'sxv_%d_' % pid)
    import glob
    for p in glob.glob(d + '*'):
        shutil.rmtree(p, ignore_errors=True)


def _concrete_child(task, inputs, seed, tries, budget):
    import logging
    import warnings
    import numpy as np
    warnings.simplefilter('ignore')
    np.seterr(all='ignore')
    logging.disable(logging.CRITICAL)
    best = dict(status='assume', error='', failed=[], used={}, observed=[],
                runs=0)
    rng = random.Random(seed)
    t0 = time.time()
    runs = 0
    for _ in range(tries):
        if budget and time.time() - t0 > budget:
            break
        e = E.ConcEnv(inputs, rng)
        e.setup()
        try:
            try:
                task.fn(e, **task.params)
                st, err = 'ok', ''
                if e.failed:
                    st = 'failed'
            except E.AssumeFailed:
                st, err = 'assume', ''
            except E.Mismatch as ex:
                st, err = 'mismatch', str(ex)
            except (Exception, SystemExit) as ex:
                err = describe(ex)
                st = 'exception' if blame(ex) == 'repo' else 'mismatch'
        finally:
            e.teardown()
        if st != 'assume':
            runs += 1
        r = dict(status=st, error=err, failed=list(e.failed),
                 used=dict(e.used), checked=e.checked, runs=runs,
                 observed=[(k, simple(v)) for k, v in e.observed]
                 if inputs is not None else [])
        if st in ('failed', 'exception'):
            return r
        if best['status'] == 'assume' or best['status'] == 'mismatch':
            best = r
        best['runs'] = runs
    return best


def describe(ex):
    tb = traceback.extract_tb(ex.__traceback__)
    fr = [f for f in tb if os.path.abspath(f.filename).startswith(
        REPO + os.sep)]
    where = ''
    if fr:
        f = fr[-1]
        where = ' at %s:%d in %s' % (os.path.relpath(f.filename, REPO),
                                     f.lineno, f.name)
    return '%s: %s%s' % (type(ex).__name__, str(ex)[:200], where)


def blame(ex):
    """'repo' if the code under test raised, 'harness' if the harness no
    longer fits it."""
    tb = traceback.extract_tb(ex.__traceback__)
    repo = [i for i, f in enumerate(tb)
            if os.path.abspath(f.filename).startswith(REPO + os.sep)]
    if isinstance(ex, SystemExit) or getattr(ex, 'sx_blame', '') == 'repo':
        return 'repo'       # also what a stand-in raises as the real one does
    if not repo:
        return 'harness'
    mine = (os.path.join(HERE, 'props'), os.path.join(HERE, 'sx', 'env'))
    last = os.path.abspath(tb[-1].filename)
    if isinstance(ex, OSError) and ex.errno and ex.filename:
        return 'repo'       # of the system, passed on by a stand-in
    if last.startswith(mine):
        # a stand-in of the harness was used in a way it does not know
        return 'harness'
    if isinstance(ex, AttributeError):
        o = getattr(ex, 'obj', None)
        for m in (getattr(type(o), '__module__', ''),
                  getattr(o, '__module__', '')):
            if isinstance(m, str) and m.split('.')[0] in ('props', 'sx'):
                return 'harness'
    if isinstance(ex, ImportError):
        return 'harness'
    return 'repo'


# -- one task -----------------------------------------------------------
class Monitor:
    """records which functions of the repository were executed"""

    def __init__(self):
        self.seen = set()
        self.on = False

    def start(self):
        try:
            mon = sys.monitoring
            mon.use_tool_id(4, 'sx')
            mon.register_callback(4, mon.events.PY_START, self.hit)
            mon.set_events(4, mon.events.PY_START)
            self.on = True
        except Exception:
            pass

    def hit(self, code, off):
        f = code.co_filename
        if f.startswith(REPO + os.sep) and not code.co_name.startswith('<'):
            self.seen.add('%s:%s' % (os.path.relpath(f, REPO),
                                     code.co_qualname))
        return sys.monitoring.DISABLE

    def stop(self):
        if self.on:
            sys.monitoring.set_events(4, 0)
            sys.monitoring.free_tool_id(4)


def run_task(task, tier, seed, t_end):
    """-> dict result (picklable)"""
    t0 = time.time()
    deadline = t_end
    if task.budget:
        deadline = min(deadline, t0 + task.budget)
    c = core.Ctx(feas_ms=task.feas_ms, obl_ms=task.obl_ms,
                 max_paths=task.max_paths, fan=task.fan, deadline=deadline)
    res = dict(task=task.name, violations=[], inconclusive=[], samples=[],
               functions=[], validated=0, mismatched=[], reached=0,
               obligations=0, unsat=0, paths=0, files=[])
    mon = Monitor()
    mon.start()
    files = set()

    def one():
        if task.rounding:
            c.rounding = task.rounding(c)
        e = E.SymEnv()
        one.env = e
        e.setup()
        try:
            task.fn(e, **task.params)
        finally:
            files.update(e.world.files)
            e.teardown()

    seen_exc = {}
    for status, info in c.explore(one):
        if status == 'exception':
            d = describe(info)
            if isinstance(info, E.Mismatch):
                note(res, 'harness does not fit the code: %s' % info)
                continue
            if isinstance(info, E.AssumeFailed):
                continue
            if seen_exc.get(d, 0) >= 3:
                continue
            seen_exc[d] = seen_exc.get(d, 0) + 1
            v = replay_exception(task, c, d, info, res)
            if v:
                res['violations'].append(v)
                break
            continue
        if status == 'unsupported':
            note(res, 'not encodable: %s' % where(info))
            continue
        if status == 'bound':
            note(res, 'bound reached: %s' % info)
            continue
        res['paths'] += 1
        bad = obligations(task, c, res)
        if bad:
            res['violations'].append(bad)
            break
        k = res['paths']
        if res['validated'] < task.validate and (
                k <= 2 or k in (5, 17, 60, 200)):
            v = validate(task, c, res)
            if v:
                res['violations'].append(v)
                break
    mon.stop()
    res['functions'] = sorted(mon.seen)
    res['files'] = sorted(os.path.relpath(f, REPO) for f in files)
    res['stats'] = c.stats.as_dict()
    if not res['violations']:
        if not res['reached'] and not res['inconclusive']:
            note(res, 'no path reached an obligation')
        if res['mismatched']:
            note(res, 'encoding and real run disagree: %s' %
                 res['mismatched'][0])
    res['searched'] = 0
    if res['inconclusive'] and not res['violations'] and task.fallback:
        lim = 40 if tier == 'quick' else 90
        lim = max(5, min(lim, t_end + 40 - time.time()))
        r = concrete(task, None, seed, timeout=lim + 60, tries=250,
                     budget=lim)
        res['searched'] = r.get('runs', 0)
        if r['status'] in ('failed', 'exception'):
            # confirm in a fresh process
            r2 = concrete(task, r['used'])
            if r2['status'] in ('failed', 'exception'):
                res['violations'].append(violation(
                    task, r2, 'search after an inconclusive exploration'))
        elif r['status'] in ('crash', 'mismatch', 'timeout'):
            note(res, 'concrete run: %s %s' % (r['status'], r['error']))
    res['wall'] = time.time() - t0
    return res


def where(ex):
    tb = traceback.extract_tb(ex.__traceback__)
    fr = [f for f in tb if os.path.abspath(f.filename).startswith(
        REPO + os.sep)]
    s = str(ex)
    if fr:
        s += ' (%s:%d)' % (os.path.relpath(fr[-1].filename, REPO),
                           fr[-1].lineno)
    return s


def note(res, msg):
    if msg not in res['inconclusive']:
        res['inconclusive'].append(msg)


def violation(task, r, how):
    lab = r['failed'][0] if r['failed'] else r['error']
    return dict(task=task.name, label=lab, failed=r['failed'],
                error=r['error'], inputs={k: enc(v) for k, v in
                                          r['used'].items()}, how=how,
                status=r['status'])


def replay_exception(task, c, d, ex, res):
    if blame(ex) != 'repo':
        note(res, 'harness does not fit the code: ' + d)
        if os.environ.get('SX_DEBUG'):
            traceback.print_exception(ex)
        return None
    if os.environ.get('SX_DEBUG'):
        traceback.print_exception(ex)
    r, m = check_sat(c.pc, task.obl_ms, c.stats)
    if r == 'unsat':
        return None
    if r != 'sat':
        note(res, 'cannot solve the path raising ' + d)
        return None
    res['reached'] += 1
    last = None
    lem = []
    for k in range(3):
        vals, m = quantise(c.pc + lem, c.inputs, m, c.stats)
        rr = concrete(task, vals)
        if rr['status'] in ('exception', 'failed'):
            return violation(task, rr, 'path raising an exception')
        last = rr
        lem += refine(c.pc, m)
        r, m = check_sat(c.pc + lem, task.obl_ms, c.stats)
        if r != 'sat' or not uf_apps(c.pc):
            break
    if r == 'unsat':
        return None
    note(res, 'raises %s, not reproduced (%s %s)' % (
        d, last['status'], last['error']))
    return None


def obligations(task, c, res):
    obls = []
    for lab, e in c.obls:
        if isinstance(e, bool):
            if e:
                res['obligations'] += 1
                res['unsat'] += 1
                continue
            e = z3.BoolVal(False)
        obls.append((lab, e))
    if c.obls:
        res['reached'] += 1
    if not obls:
        return None
    res['obligations'] += len(obls)
    c.stats.obligations += 1
    todo = []
    for lab, e in obls:
        if core.contradiction(z3.Not(e), c.stats):
            c.stats.queries += 1
            res['unsat'] += 1
        else:
            todo.append((lab, e))
    obls = todo
    if obls and len(c.inputs) <= task.split and core.is_hard(
            [e for _, e in obls], 40000):
        r, info = split.decide(c.pc, obls, c.stats, 60)
        if os.environ.get('SX_DEBUG'):
            print('SPLIT', len(obls), r, info)
        if r == 'unsat':
            res['unsat'] += len(obls)
            return None
    groups = {}
    for lab, e in obls:
        groups.setdefault(frozenset(core.cone(c, e)), []).append((lab, e))
    for ids, part in groups.items():
        base = [c.pc[i] for i in sorted(ids)]
        full = len(base) == len(c.pc)
        goal = z3.Not(z3.And(*[e for _, e in part]))
        if len(part) > 1 and core.is_hard([goal]):
            r = 'unknown'       # one by one is faster
        else:
            r, m = check_sat(base + [goal], task.obl_ms, c.stats)
        if r == 'unsat':
            res['unsat'] += len(part)
            continue
        loud = full
        if r == 'sat' and not full:
            # the constraints left out may rule it out
            r2, m2 = check_sat(c.pc + [goal], task.obl_ms, c.stats)
            if r2 == 'unsat':
                r = r2
            elif r2 == 'sat':
                base, m, full, loud = c.pc, m2, True, True
        if r == 'unsat':
            res['unsat'] += len(part)
            continue
        if r == 'sat':
            r, bad = confirm(task, c, res, base, goal, part, m, loud)
            if bad:
                return bad
            if r == 'unsat':
                res['unsat'] += len(part)
                continue
            if r == 'spurious' and full:
                continue
        for lab, e in part:
            if c.deadline and time.time() > c.deadline + 20:
                note(res, 'time budget while deciding obligations')
                return None
            for b in ([base] if full else [base, c.pc]):
                r, m = check_sat(b + [z3.Not(e)], task.obl_ms, c.stats)
                if r == 'sat':
                    r, bad = confirm(task, c, res, b, z3.Not(e),
                                     [(lab, e)], m, b is c.pc or full)
                    if bad:
                        return bad
                if r == 'unsat':
                    res['unsat'] += 1
                    break
            else:
                if r != 'spurious':
                    note(res, 'undecided: %s' % lab)
    return None


def confirm(task, c, res, base, g, obls, m, loud=True):
    """Replay a model of base and g on the real code; refine the functions
    that are only known by axioms. -> (unsat|spurious|unknown, violation)"""
    lem = []
    last = m2 = None
    for k in range(7):
        vals, m2 = quantise(base + [g] + lem, c.inputs, m, c.stats)
        if os.environ.get('SX_DEBUG'):
            print('CEX', {k: str(v) for k, v in vals.items()})
            for lab, e in obls:
                if not z3.is_true(m2.eval(e, model_completion=True)):
                    print('   fails', lab, str(z3.simplify(e))[:2000])
        rr = concrete(task, vals)
        if rr['status'] in ('failed', 'exception', 'timeout'):
            return 'sat', violation(task, rr,
                                    'counterexample of the solver')
        last = rr
        apps = uf_apps(base + [g])
        if not apps:
            # another model, away from this one
            p = pin(c.inputs, vals)
            if not p or k >= 3:
                break
            lem.append(z3.Not(z3.And(*p)))
        else:
            lem += refine(base + [g], m2)
        r, m = check_sat(base + [g] + lem, task.obl_ms, c.stats)
        if r == 'unsat':
            if apps:
                return 'unsat', None
            break
        if r != 'sat':
            break
    labs = [lab for lab, e in obls
            if z3.is_false(m2.eval(e, model_completion=True))]
    if loud:
        note(res, 'counterexample not reproduced: %s (%s %s)' % (
            labs[:2], last['status'], last['error']))
    return 'spurious', None


def validate(task, c, res):
    """Run one path's model on the real code and compare what is observed."""
    r, m = check_sat(c.pc, task.obl_ms / 4, c.stats)
    if r != 'sat':
        base = [c.pc[i] for i in core.cone(c, z3.BoolVal(True))]
        r, m = check_sat(base, task.obl_ms / 4, c.stats)
        if r != 'sat':
            return None
        vals, m = quantise(base, c.inputs, m, c.stats, 4.0)
        r, m = check_sat(c.pc + pin(c.inputs, vals), task.obl_ms, c.stats)
        if r != 'sat':
            return None
    vals, m = quantise(c.pc, c.inputs, m, c.stats, 4.0)
    if uf_apps(c.pc):
        for _ in range(2):
            lem = refine(c.pc, m)
            r, m2 = check_sat(c.pc + pin(c.inputs, vals) + lem, task.obl_ms,
                              c.stats)
            if r == 'sat':
                m = m2
                break
            r, m2 = check_sat(c.pc + lem, task.obl_ms, c.stats)
            if r != 'sat':
                return None
            vals, m = quantise(c.pc + lem, c.inputs, m2, c.stats, 4.0)
    rr = concrete(task, vals)
    if rr['status'] in ('failed', 'exception'):
        return violation(task, rr, 'model of a passing path')
    if rr['status'] != 'ok':
        note(res, 'replay of a path: %s %s' % (rr['status'], rr['error']))
        return None
    sym = [(k, simple_sym(v, m)) for k, v in c.observed]
    con = rr['observed']
    if len(sym) != len(con):
        res['mismatched'].append('number of observations %d/%d' % (
            len(sym), len(con)))
        return None
    for (k, a), (k2, b) in zip(sym, con):
        if k != k2 or not same(a, b):
            res['mismatched'].append('%s: encoding %s, real %s, inputs %s' % (
                k, str(a)[:600], str(b)[:600],
                {x: str(y) for x, y in list(vals.items())[:40]}))
            return None
    res['validated'] += 1
    if len(res['samples']) < 2:
        res['samples'].append(dict(
            task=task.name, decisions=[str(t[0]) for t in c.trail][:40],
            inputs={k: str(v) for k, v in list(vals.items())[:40]},
            observed={k: str(v)[:200] for k, v in con[:6]}))
    return None


class Skip:
    pass


def simple_sym(v, m):
    import numpy as np
    from . import sstr
    if isinstance(v, V.SFlt):
        if uf_apps([v.v]):
            if not all(t.decl().name() in ('LOG', 'ATAN', 'EXP')
                       for t in uf_apps([v.v])):
                return Skip
            return Skip
        r = val_of(m, 'real', v)
        return float('nan') if r is None else float(r)
    if isinstance(v, V.SInt):
        return val_of(m, 'int', v)
    if isinstance(v, V.SBool):
        return val_of(m, 'bool', v)
    if isinstance(v, sstr.SStr):
        return Skip
    if type(v).__name__ == 'SMasked':
        v = v.filled(np.nan)
    if isinstance(v, np.ndarray):
        a = np.asarray(v).view(np.ndarray)
        o = np.empty(a.shape, dtype=object)
        for ix in np.ndindex(*a.shape):
            o[ix] = simple_sym(a[ix], m)
        return o.tolist()
    if isinstance(v, (list, tuple)):
        return [simple_sym(x, m) for x in v]
    if isinstance(v, np.generic):
        return v.item()
    return v


def same(a, b):
    if a is Skip or b is Skip:
        return True
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, bool) or isinstance(b, bool):
        return bool(a) == bool(b)
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        if a != a or b != b:
            return a != a and b != b
        return abs(a - b) <= 2e-5 * max(1.0, abs(a), abs(b))
    return a == b


# -- the whole check ----------------------------------------------------
def preload():
    import numpy
    import scipy.ndimage
    import scipy.signal
    import pandas
    import numexpr
    import netCDF4
    from osgeo import gdal, gdal_array, osr, ogr
    with contextlib.suppress(Exception):
        import cvc5
    with contextlib.suppress(Exception):
        import shapely.geometry
        import shapely.strtree
        import fiona
    with contextlib.suppress(Exception):
        import rtree
    gdal.PushErrorHandler('CPLQuietErrorHandler')


def run_all(tasks, tier, seed, t_end, jobs, first_stop=True):
    pend = list(tasks)
    live = {}
    results = []
    tmp = tempfile.mkdtemp(prefix='sxt_')
    stop = False
    try:
        while pend or live:
            while pend and len(live) < jobs and not stop:
                t = pend.pop(0)
                out = os.path.join(tmp, 'r%d' % len(results + list(live)) +
                                   '_%d' % time.monotonic_ns())
                sys.stdout.flush()
                pid = os.fork()
                if pid == 0:
                    code = 0
                    try:
                        os.setpgid(0, 0)
                        tempfile.tempdir = os.path.join(tmp, 'w%d' %
                                                        os.getpid())
                        os.makedirs(tempfile.tempdir)
                        if not os.environ.get('SX_DEBUG'):
                            dn = os.open(os.devnull, os.O_RDWR)
                            os.dup2(dn, 1)
                            os.dup2(dn, 2)
                        import logging
                        import warnings
                        warnings.simplefilter('ignore')
                        logging.disable(logging.CRITICAL)
                        r = run_task(t, tier, seed, t_end)
                    except BaseException:
                        r = dict(task=t.name, crashed=traceback.format_exc())
                    try:
                        with open(out + '.p', 'wb') as f:
                            pickle.dump(r, f)
                        os.rename(out + '.p', out)
                    except BaseException:
                        code = 3
                    os._exit(code)
                live[pid] = (t, out, time.time())
            if stop and not live:
                break
            pid = None
            for p in list(live):
                q, st = os.waitpid(p, os.WNOHANG)
                if q:
                    pid = p
                    break
            if pid is None:
                now = time.time()
                for p, (t, out, t0) in list(live.items()):
                    if now > t_end + 150:
                        killpg(p)
                        os.waitpid(p, 0)
                        live.pop(p)
                        results.append(dict(task=t.name,
                                            crashed='killed: over time'))
                time.sleep(0.01)
                continue
            t, out, t0 = live.pop(pid)
            try:
                with open(out, 'rb') as f:
                    r = pickle.load(f)
            except Exception:
                r = dict(task=t.name, crashed='ended with status %s' % st)
            results.append(r)
            if r.get('violations') and first_stop:
                # enough: end the other tasks
                if any(not known(r0) for r0 in r['violations']):
                    stop = True
                    pend = []
                    for p in list(live):
                        killpg(p)
                        os.waitpid(p, 0)
                    live = {}
    finally:
        for p in list(live):
            killpg(p)
        shutil.rmtree(tmp, ignore_errors=True)
    return results


def killpg(p):
    for f in (os.killpg, os.kill):
        try:
            f(p, signal.SIGKILL)
        except OSError:
            pass


PROP = ['']


def known_list():
    out = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            m = re.match(r'finding: property=(\S+) key=<<(.*?)>> (.*)', line)
            if m:
                out.append(m.groups())
    return out


def known(v):
    """does a violation match a listed finding (exact task and label)?"""
    key = '%s | %s' % (v['task'], v['label'])
    for p, k, txt in known_list():
        if p == PROP[0] and k == key:
            return txt
    return None


def main(argv):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--replay')
    ap.add_argument('--task')
    ap.add_argument('--jobs', type=int, default=int(os.environ.get(
        'SX_JOBS', '8')))
    a = ap.parse_args(argv)
    tier = a.tier if a.tier in ('quick', 'thorough') else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    sys.dont_write_bytecode = True
    PROP[0] = a.property
    preload()
    mod = importlib.import_module('props.' + a.property.lower())
    t0 = time.time()
    if a.replay:
        return replay_file(mod, a)
    tasks = all_tasks(mod, tier)
    if a.task:
        tasks = [t for t in tasks if re.search(a.task, t.name)]
    wall = 170 if tier == 'quick' else 620
    wall = float(os.environ.get('SX_WALL', wall))
    results = run_all(tasks, tier, seed, t0 + wall, a.jobs)
    return report(mod, a, tier, seed, tasks, results, time.time() - t0)


def all_tasks(mod, tier):
    """of the property itself, and those it shares with C37"""
    from props import c37
    return mod.tasks(tier) + c37.shared(mod.ID)


def replay_file(mod, a):
    with open(a.replay) as f:
        rec = json.load(f)
    for tier in ('quick', 'thorough'):
        for t in all_tasks(mod, tier):
            if t.name == rec['task']:
                r = concrete(t, {k: dec(v) for k, v in
                                 rec['inputs'].items()})
                print(json.dumps({k: str(r[k]) for k in
                                  ('status', 'failed', 'error')}))
                return 1 if r['status'] in ('failed', 'exception',
                                            'timeout') else 0
    print('no such task')
    return 2


def report(mod, a, tier, seed, tasks, results, wall):
    pid = a.property
    viol, fnd, inc = [], [], []
    agg = dict(paths=0, decisions=0, queries=0, solver_s=0.0)
    fns, files, samples = set(), set(), []
    obl = uns = val = searched = 0
    per = []
    for r in results:
        if 'crashed' in r:
            inc.append((r['task'], 'task crashed: ' +
                        r['crashed'].strip().splitlines()[-1]))
            if os.environ.get('SX_DEBUG'):
                print(r['crashed'])
            continue
        for v in r['violations']:
            k = known(v)
            if k:
                fnd.append((v, k))
            else:
                viol.append(v)
        for m in r['inconclusive']:
            inc.append((r['task'], m))
        for k in agg:
            agg[k] += r['stats'].get(k, 0)
        fns.update(r['functions'])
        files.update(r['files'])
        samples += r['samples'][:1] if len(samples) > 4 else r['samples']
        obl += r['obligations']
        uns += r['unsat']
        val += r['validated']
        searched += r['searched']
        per.append(dict(task=r['task'], paths=r['paths'],
                        obligations=r['obligations'], unsat=r['unsat'],
                        validated=r['validated'],
                        queries=r['stats']['queries'],
                        solver_s=round(r['stats']['solver_s'], 2),
                        wall_s=round(r['wall'], 2)))
    os.makedirs(os.path.join(EVID, 'replays'), exist_ok=True)
    for f in os.listdir(os.path.join(EVID, 'replays')):
        if f.startswith(pid + '-'):
            os.unlink(os.path.join(EVID, 'replays', f))
    lines = []
    for i, v in enumerate(viol):
        p = os.path.relpath(os.path.join(EVID, 'replays', '%s-%d.json' % (
            pid, i + 1)), HERE)
        with open(os.path.join(HERE, p), 'w') as f:
            json.dump(dict(v, property=pid, cmd='/opt/venv/bin/python '
                           'run_check.py %s --replay %s' % (pid, p)), f,
                      indent=1)
        lines.append((v, p))
    bounds = {t.name: t.bounds for t in tasks if t.bounds}
    ev = dict(property=pid, tier=tier, seed=seed, level='model_checking',
              coverage=dict(
                  states=agg['paths'], transitions=agg['decisions'],
                  traces_validated_against_impl=val,
                  samples=samples[:8] or ['no completed path'],
                  exhaustive=not inc and not viol,
                  obligations_on_paths=obl, obligations_discharged=uns,
                  solver_queries=agg['queries'],
                  solver_seconds=round(agg['solver_s'], 2),
                  functions_encoded=sorted(fns),
                  files_encoded=sorted(files), bounds=bounds,
                  outside_bounds=getattr(mod, 'OUTSIDE', ''),
                  per_task=per,
                  inconclusive=['%s: %s' % x for x in inc],
                  concrete_runs_searching_a_replay=searched),
              assumptions=list(getattr(mod, 'ASSUMPTIONS', [])),
              wall_s=round(wall, 2), violations=len(viol))
    with open(os.path.join(EVID, pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    print('%s: %d tasks, %d paths, %d obligations (%d discharged), %d '
          'traces validated, %d queries, solver %.1fs, wall %.1fs' % (
              pid, len(results), agg['paths'], obl, uns, val,
              agg['queries'], agg['solver_s'], wall))
    if os.environ.get('SX_VERBOSE') or a.task:
        for p in per:
            print('  ', p)
    for t, m in inc:
        print('INCONCLUSIVE %s: %s' % (t, m))
    for v, k in fnd:
        print('KNOWN-FINDING: property=%s %s' % (pid, k))
    for v, p in lines:
        print('  %s: %s' % (v['task'], '; '.join(v['failed'][:4]) or
                            v['error']))
        print('VIOLATION property=%s replay=%s' % (pid, p))
    return 1 if lines else 0
