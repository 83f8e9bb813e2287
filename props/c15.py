"""C15: the multiplier of a profile with any number of hills."""
import math

from sx.runner import Task
from props.c13 import hills
from props.c14 import hill_shape

ID = 'C15'
ASSUMPTIONS = ['exact arithmetic in place of float64']
OUTSIDE = ('longer profiles, elevations beyond -50..1500 m; escarpment '
           'factors within 1e-6 of 0.8 and 1.2')


def profile_multiplier(env, y, n, ds):
    """the documented combination. y: whole metres"""
    ridges, valleys = hills(env, y)
    want = [1.0] * n
    sure = True
    for r in ridges:
        up = [v for v in valleys if v < r]
        if not up:
            continue            # nothing upwind rises to this point
        m, ok = hill_shape(env, y, n, r, up[-1], ds)
        want = [env.If(a > b, a, b) for a, b in zip(m, want)]
        sure = env.And(sure, ok)
    return want, sure


def line(env, n, ds, kind, lo, hi, shape=None, fixed={}):
    mc = env.load('topographic.multiplier_calc')
    y = env.const([0.0] * n, 'float64')
    whole = []
    for i in range(n):
        k = fixed[i] if i in fixed else env.int('y%d' % i, lo, hi)
        whole.append(k)
        y[i] = k
        if kind == 'real':
            y[i] = k + env.real('part%d' % i, 0, 0.998)
    for i, s in enumerate(shape or ''):
        a, b = whole[i], whole[i + 1]
        env.assume(a < b if s == '/' else a > b if s == '\\' else a == b)
    m = env.fn(mc, 'multiplier_calc')(y, ds)
    env.check('one value per point', m.size == n)
    m = m.reshape(-1)
    want, sure = profile_multiplier(env, whole, n, ds)
    for k in range(n):
        env.check('at least 1 at point %d' % k, m[k] >= 1)
        env.check('value at point %d' % k, env.Implies(
            sure, env.close(m[k], want[k])))
    env.observe('m', m)


def ranges(n, seed):
    """a profile with hills of several sizes"""
    return [int(60 + 45 * math.sin(i / 4.0 + seed) + 25 * math.sin(
        i * 1.1 + 2 * seed) + 8 * math.sin(i * 2.7)) for i in range(n)]


LONG = [(ranges(40, 0), 25.0, 25, 50, (20,)),
        (ranges(40, 1), 60.0, 110, 140, (28,)),
        (ranges(70, 2), 15.0, 120, 150, (49,)),
        (ranges(120, 3), 20.0, 20, 45, (63,)),
        (ranges(40, 1), 60.0, 0, 130, (0, 31)),
        (ranges(50, 4), 35.0, 60, 90, (40,)),
        (ranges(50, 5), 35.0, 0, 70, (24,))]


def tasks(tier):
    T = [dict(n=n, ds=ds, kind='int', lo=-50, hi=h)
         for n, ds, h in ((1, 25.0, 1500), (2, 25.0, 1500),
                          (3, 130.0, 1500))]
    T += [dict(n=4, ds=200.0, kind='int', lo=0, hi=60, shape=s)
          for s in ('//-', '-//', '\\//', '/-/', '/\\/', '//\\')]
    T += [dict(n=3, ds=100.0, kind='real', lo=-30, hi=30),
          dict(n=6, ds=200.0, kind='int', lo=0, hi=60, shape='//\\//',
               fixed={0: 0, 1: 9, 3: 4}),
          dict(n=7, ds=200.0, kind='int', lo=0, hi=60, shape='\\//\\//',
               fixed={0: 20, 1: 0, 2: 20, 4: 4}),
          dict(n=7, ds=100.0, kind='int', lo=0, hi=60, shape='//\\//\\',
               fixed={0: 0, 1: 9, 2: 30, 3: 14, 6: 40}),
          dict(n=5, ds=60.0, kind='int', lo=0, hi=25, shape='//-\\'),
          dict(n=5, ds=60.0, kind='int', lo=0, hi=30, shape='-///'),
          dict(n=5, ds=60.0, kind='int', lo=0, hi=30, shape='\\\\\\-')]
    # long profiles: all but a few points fixed
    T += [dict(n=len(z), ds=ds, kind='int', lo=lo, hi=hi, long=z, fixed={
        i: z[i] for i in range(len(z)) if i not in free})
        for z, ds, lo, hi, free in LONG[:3 if tier == 'quick' else None]]
    if tier == 'thorough':
        T += [dict(n=4, ds=25.0, kind='int', lo=-50, hi=300, shape=a + b + c)
              for a in '/-\\' for b in '/-\\' for c in '/-\\']
        T += [dict(n=7, ds=200.0, kind='int', lo=0, hi=60, shape=s)
              for s in ('//\\//', '//\\\\//', '//\\//\\', '\\//-//')]
    out = []
    for i, d in enumerate(T):
        name = ', '.join(str(v) for k, v in sorted(d.items()))
        b = '%s elevations %d..%d' % (d['kind'], d['lo'], d['hi'])
        if d.pop('long', None):
            free = sorted(set(range(d['n'])) - set(d['fixed']))
            name = '%d points, %g m, free %s' % (d['n'], d['ds'], free)
            b += ' of the points %s, fixed ones elsewhere' % free
        out.append(Task(name, line, d, bounds=b, validate=3))
    return out
