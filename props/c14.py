"""C14: the hill-shape multiplier of one hill."""
from sx.runner import Task

ID = 'C14'
ASSUMPTIONS = ['exact arithmetic in place of float64']
OUTSIDE = ('longer profiles, elevations beyond -50..3000 m; escarpment '
           'factors within 1e-6 of 0.8 and 1.2, where rounding selects the '
           'formula')


def escarpment(env, p, n, r, v, ds):
    """lee slope against windward slope, 0.5 .. 3 (1 at the end)"""
    b = min(n - 1, r + (r - v))
    if b == r:
        return 1.0
    h = p[r] - p[v]
    lee = (p[r] - p[b]) / ((b - r) * ds)
    e = 2.5 - 1.5 * (lee / (h / ((r - v) * ds)))
    return env.If(e < 0.5, 0.5, env.If(e > 3, 3.0, e))


def hill_shape(env, p, n, r, v, ds):
    """multiplier of each point of the profile, from the documentation.
    -> (list of values, condition under which they are reliable)"""
    h = p[r] - p[v]
    run = (r - v) * ds
    slope = h / run
    e = escarpment(env, p, n, r, v, ds)
    l1 = env.If(0.36 * run / 2 > 0.4 * h, 0.36 * run / 2, 0.4 * h)
    l2 = 4 * l1
    none = env.Or(slope < 0.05, h < 10, r - v < 2)
    sure = env.Or(e == 1.0, env.And(env.abs(e - 0.8) > 1e-6,
                                    env.abs(e - 1.2) > 1e-6))
    out = []
    for k in range(n):
        d = abs(r - k) * ds
        reach = l2 if k <= r else e * l2
        f = 1 + h / (3.5 * (10 + l1)) * (1 - d / reach)
        f = env.If(f > 1.71, 1.71, f)
        if k > r:
            sym = env.And(slope > 0.45, d < h / 4.0, e > 0.8, e < 1.2)
            f = env.If(sym, 1 + 0.71 * (1 - d / reach), f)
        out.append(env.If(env.Or(none, d >= reach), 1.0, f))
    return out, sure


def hill(env, n, r, v, ds, lo=-50, hi=3000, free=None):
    """free: elevations that are not those of an even rise and fall"""
    mh = env.load('topographic.mh')
    p = env.const([0.0] * n, 'float64')
    for i in range(n):
        if free is None or i in free:
            p[i] = env.int('y%d' % i, lo, hi)
        else:
            p[i] = float(max(0, (i - v) * 4 if i <= r else
                             (r - v) * 4 - 5 * (i - r)))
    env.assume(p[r] > p[v])
    keep = p.copy()
    m = env.fn(mh, 'mh_calc')(p, env.np.int64(r), env.np.int64(v), ds)
    env.check('one value per point', m.size == n)
    m = m.reshape(-1)
    want, sure = hill_shape(env, keep, n, r, v, ds)
    for k in range(n):
        env.check('bounds at point %d' % k, env.And(
            m[k] >= 1 - 1e-9, m[k] <= 1.71 + 1e-9))
        env.check('value at point %d' % k, env.Implies(
            sure, env.close(m[k], want[k])))
        env.check('profile unchanged', p[k] == keep[k])
    env.observe('m', m)


LONG = [(45, 2, 30, 10.0, 60, 140, (30,)),
        (45, 2, 14, 10.0, 20, 60, (26,)),
        (80, 8, 33, 10.0, 0, 60, (8,))]
MORE = [(120, 10, 60, 15.0, 700, 760, (60,)),
        (90, 5, 40, 25.0, -40, 100, (75,)),
        (45, 2, 30, 10.0, 20, 140, (2, 30)),
        (70, 30, 33, 12.0, 0, 300, (33, 36))]


def tasks(tier):
    T = [Task('6 points, valley 0, ridge 2, gentle hill', hill, dict(
              n=6, r=2, v=0, ds=130.0, lo=0, hi=60), validate=3,
              bounds='every whole elevation 0..60'),
         Task('5 points, valley 0, ridge 2, rise', hill, dict(
             n=5, r=2, v=0, ds=25.0, lo=0, hi=22), validate=3,
             bounds='every whole elevation 0..22')]
    T += [Task('%d points, valley %d, ridge %d, %g m' % (n, v, r, ds), hill,
               dict(n=n, r=r, v=v, ds=ds, lo=lo, hi=hi, free=free),
               validate=3, bounds='elevations %d..%d of the points %s, fixed '
               'ones elsewhere' % (lo, hi, free))
          for n, v, r, ds, lo, hi, free in LONG + (
              [] if tier == 'quick' else MORE)]
    for n in ((4,) if tier == 'quick' else (4, 5, 6)):
        for v in range(n):
            for r in range(v + 1, n):
                if n == 4:
                    sp = (25.0, 130.0)
                else:
                    sp = (25.0,) if n == 5 else (31.3,)
                for ds in sp:
                    T.append(Task('%d points, valley %d, ridge %d, %g m' % (
                        n, v, r, ds), hill, dict(n=n, r=r, v=v, ds=ds),
                        bounds='every whole elevation -50..3000',
                        validate=3))
    return T
