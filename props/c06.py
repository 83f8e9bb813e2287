"""C06: the terrain multiplier of a cell averages the cells upwind of it."""
from sx.runner import Task

ID = 'C06'
ASSUMPTIONS = ['float32 storage treated as exact within 1e-5']
OUTSIDE = 'arrays larger than stated (index arithmetic is unbounded)'
DIRS = {'n': (-1, 0), 's': (1, 0), 'w': (0, -1), 'e': (0, 1),
        'nw': (-1, -1), 'ne': (-1, 1), 'sw': (1, -1), 'se': (1, 1)}


def upwind(rows, cols, i, j, d, avg, lag):
    """cells at distance lag+1 .. lag+avg towards direction d"""
    dr, dc = DIRS[d]
    out = []
    for m in range(lag + 1, lag + avg + 1):
        r, c = i + m * dr, j + m * dc
        if not (0 <= r < rows and 0 <= c < cols):
            break
        out.append((r, c))
    return out


def average(env, data, rows, cols, i, j, d, avg, lag):
    cells = upwind(rows, cols, i, j, d, avg, lag)
    if not cells:
        return data[i, j]
    s = 0
    for c in cells:
        s = s + data[c]
    return s / float(len(cells))


def conv(env, rows, cols, d, amax, lmax):
    tm = env.load('terrain.terrain_mult')
    avg = int(env.int('avg_width', 0, amax))
    lag = int(env.int('lag_width', 0, lmax))
    data = env.farray('mz', (rows, cols), 0, 2, dtype='float32')
    keep = data.copy()
    out = env.fn(tm, 'convo')(d, data, avg, lag)
    env.check('shape', tuple(out.shape) == (rows, cols))
    for i in range(rows):
        for j in range(cols):
            env.check('average upwind of (%d, %d)' % (i, j), env.close(
                out[i, j], average(env, keep, rows, cols, i, j, d, avg,
                                   lag), 2))
            env.check('input unchanged', data[i, j] == keep[i, j])
    env.observe('out', out)


def index(env, d):
    """the index arithmetic for rasters of any size"""
    vl = env.load('utilities.value_lookup')
    rows = env.int('rows', 1, 10 ** 7)
    cols = env.int('cols', 1, 10 ** 7)
    i = env.int('i', 0, 10 ** 7)
    j = env.int('j', 0, 10 ** 7)
    m = env.int('m', 0, 10 ** 7)
    lag = env.int('lag', 0, 10 ** 7)
    env.assume(env.And(i < rows, j < cols))
    n = env.fn(vl, 'ALL_NEIGHB')[d](i, j, rows, cols, lag)
    r = env.fn(vl, 'POINT_R')[d](i, m, lag)
    c = env.fn(vl, 'POINT_C')[d](j, m, lag)
    dr, dc = DIRS[d]
    env.check('row of the m-th neighbour', r == i + (m + lag + 1) * dr)
    env.check('column of the m-th neighbour', c == j + (m + lag + 1) * dc)
    inside = env.And(r >= 0, r < rows, c >= 0, c < cols)
    env.check('number of neighbours inside the raster',
              env.And(env.Implies(inside, m < n),
                      env.Implies(m < n, inside)))
    env.observe('n', n)


def tasks(tier):
    out = [Task('index arithmetic ' + d, index, dict(d=d),
                bounds='rows, cols, lag, offsets up to 1e7') for d in DIRS]
    sizes = [(3, 4, 3, 2), (5, 3, 4, 2)]
    if tier == 'thorough':
        sizes += [(1, 6, 6, 3), (6, 1, 6, 3), (6, 7, 7, 4), (2, 2, 3, 3)]
    for rows, cols, a, g in sizes:
        for d in DIRS:
            out.append(Task('convo %s %dx%d' % (d, rows, cols), conv,
                            dict(rows=rows, cols=cols, d=d, amax=a, lmax=g),
                            validate=1,
                            bounds='avg_width 0..%d, lag_width 0..%d' % (
                                a, g)))
    return out
