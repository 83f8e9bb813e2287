"""C16: the scan lines of each direction."""
from sx.runner import Task
from props.util import STEP

ID = 'C16'
ASSUMPTIONS = ['a line is a list of column-major cell numbers: row + column '
               'x rows, as topomult reads the elevations']
OUTSIDE = 'larger rasters than stated'


def down(d):
    """one cell downwind: away from where the wind comes from"""
    return -STEP[d][0], -STEP[d][1]


def path(env, mr, mc, d):
    """one line from any starting cell, any raster size"""
    mp = env.load('topographic.make_path')
    nr = env.int('rows', 1, mr)
    nc = env.int('cols', 1, mc)
    i = env.int('row', 0, mr - 1)
    j = env.int('col', 0, mc - 1)
    env.assume(env.And(i < nr, j < nc))
    out = [int(x) for x in env.fn(mp, 'make_path')(nr, nc, i + j * nr, d)]
    nr, nc, i, j = int(nr), int(nc), int(i), int(j)
    dr, dc = down(d)
    want = []
    while 0 <= i < nr and 0 <= j < nc:
        want.append(i + j * nr)
        i, j = i + dr, j + dc
    env.check('cells of the line, in downwind order', out == want)
    env.observe('out', out)


def step(env, d, big):
    """start and first step on rasters of any size: the line starts one cell
    before the edge it runs towards"""
    mp = env.load('topographic.make_path')
    nr = env.int('rows', 3, big)
    nc = env.int('cols', 3, big)
    a = env.int('a', 0, big)
    dr, dc = down(d)
    i = a if dr == 0 else nr - 2 if dr > 0 else 1
    j = a if dc == 0 else nc - 2 if dc > 0 else 1
    env.assume(env.And(i < nr, j < nc))
    out = list(env.fn(mp, 'make_path')(nr, nc, i + j * nr, d))
    env.check('two cells', len(out) == 2)
    if len(out) == 2:
        env.check('first', out[0] == i + j * nr)
        env.check('second', out[1] == i + dr + (j + dc) * nr)
    env.observe('out', out)


def rounding(env, least, most):
    """the cell numbers are exact whatever the number of rows"""
    mp = env.load('topographic.make_path')
    nr = int(env.int('rows', least, most))
    for n in (int, float):
        for i, j in ((0, 0), (0, 1), (nr - 1, 2), (1, 3), (nr // 2, 3)):
            for d in STEP:
                out = [int(x) for x in mp.make_path(nr, 4, n(i + j * nr), d)]
                dr, dc = down(d)
                r, c, want = i, j, []
                while 0 <= r < nr and 0 <= c < 4:
                    want.append(r + c * nr)
                    r, c = r + dr, c + dc
                env.check('%s from %d, %d' % (d, i, j), out == want)


def cover(env, mr, mc):
    """the lines topomult follows on a raster visit every cell once"""
    nr, nc = int(env.int('rows', 1, mr)), int(env.int('cols', 1, mc))
    tm = env.load('topographic.topo_mult')
    mc = env.load('topographic.multiplier_calc')
    env.base_config()
    gt = (150.0, 0.01, 0.0, -20.0, 0.0, -0.01)
    # one number per cell, so that a line names its cells
    z = env.const([[float(1 + i * nc + j) for j in range(nc)]
                   for i in range(nr)], 'float64')
    env.mkdir('out', 'topographic')
    p = env.raster('out/e150s20_dem.img', z, gt, dtype='float64')
    lines = {}
    cur = []

    def calc(line, spacing):
        cur.append([int(v) - 1 for v in list(line)])
        return env.np.ones((len(cur[-1]), 1))

    def save(name, *a, **k):
        lines[str(a[3])[:-3].split('_')[-1]] = list(cur)
        del cur[:]
    for m in (mc, tm):
        if callable(getattr(m, 'multiplier_calc', None)):
            env.patch(m, 'multiplier_calc', calc)
    env.patch(tm, 'save_multiplier', save)
    tm.topomult(p, (150.0, -20.0 - nr * 0.01, 150.0 + nc * 0.01, -20.0))
    if not lines:
        return              # organised differently: C18 judges the result
    for d in STEP:
        got = lines.get(d)
        env.check('%s processed' % d, got is not None)
        if got is None:
            continue
        seen = sorted(c for ln in got for c in ln)
        env.check('%s: every cell once' % d, seen == list(range(nr * nc)))
        dr, dc = down(d)
        for ln in got:
            rc = [divmod(c, nc) for c in ln]
            r, c = rc[0]
            env.check('%s: starts at the upwind edge' % d, not (
                0 <= r - dr < nr and 0 <= c - dc < nc))
            r, c = rc[-1]
            env.check('%s: ends at the downwind edge' % d, not (
                0 <= r + dr < nr and 0 <= c + dc < nc))
            env.check('%s: one cell downwind at a time' % d, all(
                (b[0] - a[0], b[1] - a[1]) == (dr, dc)
                for a, b in zip(rc, rc[1:])))


def tasks(tier):
    m = (4, 5) if tier == 'quick' else (8, 7)
    T = [Task('line %s' % d, path, dict(mr=m[0], mc=m[1], d=d),
              bounds='every raster up to %dx%d, every start' % m,
              validate=5) for d in STEP]
    T += [Task('first step %s' % d, step, dict(d=d, big=10 ** 6),
               bounds='every raster of 3 to 1e6 rows and columns',
               validate=2) for d in STEP]
    T += [Task('rounding, from %d rows' % n, rounding, dict(
        least=n, most=n + 63), validate=2,
        bounds='%d to %d rows, four columns, five starts' % (n, n + 63))
        for n in range(2, 130 if tier == 'quick' else 1200, 64)]
    n = (4, 4) if tier == 'quick' else (6, 7)
    T += [Task('all lines', cover, dict(mr=n[0], mc=n[1]),
               bounds='every raster up to %dx%d' % n, validate=4)]
    return T
