"""C01: the tile cores partition the raster."""
from sx.runner import Task

ID = 'C01'
ASSUMPTIONS = ['GDAL reports raster size and geotransform as stored '
               '(in-memory stand-in for the dataset)',
               'real arithmetic for the geotransform; pixel sizes from the '
               'listed values']
OUTSIDE = 'more than 3 tiles per axis; pixel sizes not listed'
PIX = [1.0, 0.75, 0.5, 0.4, 0.25, 0.125, 0.1, 0.05, 0.01,
       0.0002777777777777778, 0.00083333333333]


def grid(env, pw, ph, tx, ty, upmax, exact=False):
    """a TileGrid over a raster of up to tx x ty tiles"""
    import math
    sx, sy = math.ceil(1.0 / pw), math.ceil(1.0 / ph)
    w = env.int('cols', 1, tx * sx)
    h = env.int('rows', 1, ty * sy)
    up = env.real('upwind_length', 0, upmax)
    p = env.raster('dem.img', None, (140.0, pw, 0.0, -20.0, 0.0, -ph),
                   size=(w, h), dtype='float32')
    am = env.load('all_multipliers')
    tg = am.TileGrid(up, p)
    return w, h, up, tg, am


def partition(env, pw, ph, tx, ty, upmax):
    w, h, up, tg, am = grid(env, pw, ph, tx, ty, upmax)
    n = int(tg.num_tiles)
    cells = []
    for k in range(n):
        lim = tg.get_gridlimit(k)
        cells.append([v for v in lim])
    env.observe('limits', [list(c) for c in cells])
    r = env.int('r', 0)
    c = env.int('c', 0)
    env.assume(env.And(r < h, c < w))
    inside = [env.And(x1 <= c, c < x2, y1 <= r, r < y2)
              for x1, x2, y1, y2 in cells]
    env.check('every cell lies in a tile core', env.Or(*inside))
    for i in range(n):
        for j in range(i):
            env.check('no cell lies in two tile cores',
                      env.Not(env.And(inside[i], inside[j])))
    for x1, x2, y1, y2 in cells:
        env.check('cores are non-empty and within the raster', env.And(
            x1 >= 0, y1 >= 0, x2 <= w, y2 <= h, x1 < x2, y1 < y2))


def tasks(tier):
    out = []
    combos = [(1.0, 1.0, 2, 2), (0.5, 0.25, 3, 2), (0.1, 0.1, 2, 3),
              (0.0002777777777777778, 0.0002777777777777778, 3, 3),
              (0.4, 0.75, 3, 3), (0.01, 0.05, 1, 4)]
    if tier == 'thorough':
        combos += [(p, q, 4, 4) for p in PIX for q in (0.25, 0.01)]
        combos += [(p, p, 1, 7) for p in PIX] + [(p, p, 7, 1) for p in PIX]
    for pw, ph, tx, ty in combos:
        out.append(Task(
            'pixel %g x %g, %dx%d tiles' % (pw, ph, tx, ty), partition,
            dict(pw=pw, ph=ph, tx=tx, ty=ty, upmax=2.5),
            bounds='raster of up to %d x %d tiles (any size in cells), '
            'upwind_length in [0, 2.5] degrees' % (tx, ty)))
    return out
