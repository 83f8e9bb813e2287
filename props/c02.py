"""C02: every tile is processed with the buffer around its core."""
from fractions import Fraction

from sx.runner import Task
from props.c01 import grid, PIX

ID = 'C02'
ASSUMPTIONS = ['GDAL reports raster size and geotransform as stored',
               'real arithmetic; a buffer length within 1e-9 cells of a whole '
               'number of cells may round either way']
OUTSIDE = 'more than 3 tiles per axis; pixel sizes not listed'
EPS = Fraction(1, 10 ** 9)


def windows(env, pw, ph, tx, ty, upmax):
    w, h, up, tg, am = grid(env, pw, ph, tx, ty, upmax)
    n = int(tg.num_tiles)
    fx, fy = Fraction(repr(pw)), Fraction(repr(ph))
    e = float(EPS)
    # cells of the buffer; either side of a rounding error
    bx = [env.floor(up / pw + e), env.floor(up / pw - e)]
    by = [env.floor(up / ph + e), env.floor(up / ph - e)]
    okx = [True, True]
    oky = [True, True]
    obs = []
    for k in range(n):
        x1, x2, y1, y2 = tg.get_gridlimit(k)
        u1, u2, v1, v2 = tg.get_gridlimit_buffer(k)
        obs.append([u1, u2, v1, v2])
        for i in (0, 1):
            okx[i] = env.And(okx[i], u1 == env.max(0, x1 - bx[i]),
                             u2 == env.min(w, x2 + bx[i]))
            oky[i] = env.And(oky[i], v1 == env.max(0, y1 - by[i]),
                             v2 == env.min(h, y2 + by[i]))
        env.check('a core is no wider than one degree and a cell', env.And(
            (x2 - x1 - 1) * fx <= 1, (y2 - y1 - 1) * fy <= 1))
        env.check('no narrower, unless the raster ends', env.And(
            env.Or((x2 - x1) * fx >= 1 - EPS, x2 == w),
            env.Or((y2 - y1) * fy >= 1 - EPS, y2 == h)))
    env.observe('windows', obs)
    env.check('columns: core plus buffer, clipped to the raster',
              env.Or(*okx))
    env.check('rows: core plus buffer, clipped to the raster', env.Or(*oky))


def tasks(tier):
    combos = [(1.0, 1.0, 2, 2, 2.5), (0.5, 0.25, 3, 2, 2.5),
              (0.1, 0.1, 2, 3, 1.5), (0.4, 0.75, 3, 3, 1.5),
              (0.0002777777777777778, 0.0002777777777777778, 3, 3, 1.5),
              (0.01, 0.05, 1, 4, 1.5)]
    if tier == 'thorough':
        combos += [(p, q, 4, 4, 2.5) for p in PIX for q in (0.25, 0.01)]
        combos += [(p, p, 1, 6, 3.5) for p in PIX]
        combos += [(p, p, 6, 1, 3.5) for p in PIX]
    return [Task('pixel %g x %g, %dx%d tiles, upwind<=%g' % c, windows,
                 dict(zip(('pw', 'ph', 'tx', 'ty', 'upmax'), c)),
                 bounds='raster of up to %d x %d tiles, any size in cells; '
                 'upwind_length in [0, %g] degrees' % (c[2], c[3], c[4]))
            for c in combos]
