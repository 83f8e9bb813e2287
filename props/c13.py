"""C13: ridges and valleys of an elevation profile."""
from sx.runner import Task

ID = 'C13'
ASSUMPTIONS = ['elevations are numbers (missing ones count as 0 before)']
OUTSIDE = 'longer profiles'


def hills(env, y):
    """ridges and valleys read off the definition; forks on the shape"""
    n = len(y)
    up = [env.fix(y[i + 1] > y[i]) for i in range(n - 1)]
    dn = [False if up[i] else env.fix(y[i + 1] < y[i]) for i in range(n - 1)]
    steps = [1 if u else -1 if d else 0 for u, d in zip(up, dn)]
    moves = [s for s in steps if s]
    if n == 1:
        return [0], [0]
    if not moves:
        return [], []
    ridges = [i for i in range(1, n) if steps[i - 1] > 0 and
              (i == n - 1 or steps[i] <= 0)]
    valleys = [i for i in range(n - 1) if steps[i] > 0 and
               (i == 0 or steps[i - 1] <= 0)]
    if moves[0] < 0:
        ridges = [0] + ridges
    if moves[-1] < 0:
        valleys = valleys + [n - 1]
    return ridges, valleys


def profile(env, n, kind, free=None):
    fp = env.load('topographic.findpeaks')
    if kind == 'int':
        y = env.const([0.0] * n, 'float64')
        for i in range(n):
            y[i] = env.int('y%d' % i, -50, 3000) if (
                free is None or i in free) else float(i * i * 7 % 23 // 2)
    else:
        y = env.farray('y', (n,), -50, 3000)
    keep = y.copy()
    r = [int(i) for i in env.fn(fp, 'findpeaks')(y)]
    v = [int(i) for i in env.fn(fp, 'findvalleys')(y)]
    ridges, valleys = hills(env, keep)
    env.check('ridges', r == ridges)
    env.check('valleys', v == valleys)
    for i in range(n):
        env.check('profile unchanged', y[i] == keep[i])
    if n > 1:
        seq = sorted([(i, 'r') for i in r] + [(i, 'v') for i in v])
        env.check('ridges and valleys alternate', all(
            a[0] < b[0] and a[1] != b[1] for a, b in zip(seq, seq[1:])))
    env.observe('r', r)
    env.observe('v', v)


def tasks(tier):
    k = 7 if tier == 'quick' else 9
    T = [(n, 'int') for n in range(1, k)] + [(4, 'real')]
    if tier == 'thorough':
        T += [(6, 'real')]
    L = [(40, (0, 1, 20, 21)), (60, (10, 58, 59)), (150, (70, 71, 140))]
    return [Task('%d points, free %s' % t, profile, dict(
        n=t[0], kind='int', free=t[1]), validate=6,
        bounds='elevations -50..3000 of the points %s' % (t[1],))
        for t in L] + [Task('%d %s points' % t, profile, dict(n=t[0], kind=t[1]),
                 bounds='every elevation -50..3000', validate=6)
            for t in T]
