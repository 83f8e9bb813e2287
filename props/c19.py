"""C19: cell sizes in metres, interpolated over the tile."""
from sx.runner import Task
from props.util import cell_size, cells

ID = 'C19'
ASSUMPTIONS = ['float32 storage within 1e-5',
               'the size of one cell is what get_pixel_size returns (the '
               'listed locations compare it with the ellipsoid)']
OUTSIDE = 'larger tiles; rotated or projected rasters'


def pair(k, n):
    """the nodes around position k of n, and the weight of the second"""
    a, b = (0, n // 2) if k <= n // 2 else (n // 2, n - 1)
    return a, b, (k - a) / float(b - a) if b > a else 0.0


def expected(env, size, nr, nc, r, c):
    r0, r1, s = pair(r, nr)
    c0, c1, t = pair(c, nc)
    return ((1 - s) * ((1 - t) * size(r0, c0) + t * size(r0, c1)) +
            s * ((1 - t) * size(r1, c0) + t * size(r1, c1)))


def grids(env, nr, nc):
    gp = env.load('utilities.get_pixel_size_grid')
    known = {}
    for a in sorted({0, nr // 2, nr - 1}):
        for b in sorted({0, nc // 2, nc - 1}):
            known[a, b] = (env.real('w[%d,%d]' % (a, b), 1, 5000),
                           env.real('h[%d,%d]' % (a, b), 1, 5000))
    asked = []

    def size(dataset, xy):
        x, y = [int(v) for v in xy]
        asked.append((y, x))
        return known.get((y, x), (-1.0, -1.0))
    env.fn(gp, 'get_pixel_size')
    env.patch(gp, 'get_pixel_size', size)
    p = env.raster('t.img', env.const([[0.0] * nc] * nr, 'float32'),
                   (150.0, 0.01, 0.0, -30.0, 0.0, -0.01), dtype='float32')
    gw, gh = env.fn(gp, 'get_pixel_size_grids')(env.dataset(p))
    if not asked:
        return
    env.check('cells inside the tile only', all(a in known for a in asked))
    for k, g, nm in ((0, gw, 'width'), (1, gh, 'height')):
        env.check('shape of ' + nm, tuple(g.shape) == (nr, nc))
        lo = env.min(*[v[k] for v in known.values()])
        hi = env.max(*[v[k] for v in known.values()])
        for r, c in cells((nr, nc)):
            w = expected(env, lambda a, b: known[a, b][k], nr, nc, r, c)
            env.check('%s of cell (%d, %d)' % (nm, r, c),
                      env.close(g[r, c], w, 1000))
            env.check('%s of cell (%d, %d) in range' % (nm, r, c), env.And(
                g[r, c] >= lo - 0.01, g[r, c] <= hi + 0.01))
    env.observe('w', gw)


def place(env, nr, nc, px, py, x0, y0):
    """the grids of a real location against the ellipsoid"""
    gp = env.load('utilities.get_pixel_size_grid')
    p = env.raster('t.img', env.const([[0.0] * nc] * nr, 'float32'),
                   (x0, px, 0.0, y0, 0.0, -py), dtype='float32')
    gw, gh = env.fn(gp, 'get_pixel_size_grids')(env.dataset(p))
    r = int(env.int('row', 0, nr - 1))
    c = int(env.int('col', 0, nc - 1))
    for k, g, nm in ((0, gw, 'width'), (1, gh, 'height')):
        w = expected(env, lambda a, b: cell_size(
            px, py, y0 - (a + 0.5) * py)[k], nr, nc, r, c)
        env.check('%s in metres' % nm, abs(float(g[r, c]) - w) < w * 3e-5)


def tasks(tier):
    m = 6 if tier == 'quick' else 9
    T = [Task('%dx%d' % (r, c), grids, dict(nr=r, nc=c), validate=1,
              bounds='every cell size of 1 to 5000 m at the nodes')
         for r in range(1, m + 1) for c in range(1, m + 1)
         if tier != 'quick' or (r + c) % 2 or r == c or 1 in (r, c)]
    T += [Task('%dx%d cells of %gx%g at %g, %g' % k, place, dict(zip(
        ('nr', 'nc', 'px', 'py', 'x0', 'y0'), k)), validate=1,
        bounds='every cell of the raster')
        for k in ((7, 4, 0.05, 0.05, 150.0, -30.0),
                  (3, 8, 0.02, 0.1, -70.0, 65.0),
                  (5, 5, 0.1, 0.02, 100.0, 0.2),
                  (1, 6, 0.01, 0.01, 140.0, -45.0))]
    return T
