"""C07: the terrain multiplier of a whole tile."""
import math
import os

from sx.runner import Task
from props.util import (DIRECTIONS, STEP, cell_size, cells, check_grid,
                        extent, pixel_for, whole)

ID = 'C07'
ASSUMPTIONS = ['GDAL and netCDF4 store and return arrays unchanged (float32 '
               'values within 1e-5)', 'cell sizes chosen so that the '
               'averaging distances are not within 0.3% of a step']
OUTSIDE = 'larger tiles; other tables (C05); other cell sizes'
SIX = [(0, 0), (0, 3), (1, 2), (2, 1), (3, 0), (3, 3)]
ROWS = [(3, 2.0, 85), (7, 0.2, 90), (12, 0.005, 100)]


def factor(z0):
    return -0.2827 * math.log(0.4554 * math.log(z0) + 3.734) + 1.0762


def tile(env, rows, cols, metres, core, lat=-33.0, stretch=1.0, free=None,
         dtype='int32'):
    tm = env.load('terrain.terrain_mult')
    env.base_config(env.table(ROWS))
    env.git(True)
    # non-square cells: same mean size
    px = pixel_for(metres, lat) * stretch
    gw = cell_size(px, 1e-4, lat)[0]
    py = (2 * metres - gw) / (cell_size(1e-4, 1e-4, lat)[1] / 1e-4)
    x0, y0 = 147.0, lat + rows * py / 2
    data = env.const([[ROWS[(i + 2 * j) % 3][0] for j in range(cols)]
                      for i in range(rows)], dtype)
    sym = cells((rows, cols)) if free is None else free
    for r, c in sym:
        data[r, c] = env.int('class[%d,%d]' % (r, c), -1, 15)
    p = env.raster('out/e147s33.img', data, (x0, px, 0.0, y0, 0.0, -py),
                   dtype=dtype)
    env.mkdir('out', 'terrain')
    r0, c0, nr, nc = core
    tm.terrain(p, extent(x0, y0, px, py, c0, r0, nc, nr))
    # what it should be
    mz = {}
    known = {}
    for ix in cells((rows, cols)):
        v, k = 1.0, False
        for cat, z0, _ in ROWS:
            hit = data[ix] == cat
            v = env.If(hit, factor(z0), v)
            k = env.Or(k, hit)
        mz[ix], known[ix] = v, k
    some = env.Or(*known.values())
    some = env.fix(some)
    nan = float('nan')
    for d in DIRECTIONS:
        f = os.path.join(os.path.dirname(p), 'terrain',
                         'e147s33_mz_%s.nc' % d)
        res = env.read_nc(f)
        if not some:
            env.check('nothing written without a listed class', res is None)
            continue
        if len(d) == 1:
            avg, lag = whole(500 / metres, 'round'), \
                whole(200 / metres, 'round')
        else:
            avg, lag = [whole(x / (metres * 1.414), 'int')
                        for x in (500, 200)]
        dr, dc = STEP[d]
        want = []
        for r in range(r0, r0 + nr):
            row = []
            for c in range(c0, c0 + nc):
                up = []
                for m in range(lag + 1, lag + avg + 1):
                    q = (r + m * dr, c + m * dc)
                    if q not in mz:
                        break
                    up.append(mz[q])
                v = env.sum(up) / float(len(up)) if up else mz[r, c]
                row.append(env.If(known[r, c], v, nan))
            want.append(row)
        check_grid(env, d, res, 'Mz', want, x0, y0, px, py, c0, r0)
        if res is not None and d in ('n', 'sw'):
            env.observe(d, res['vars'].get('Mz'))
    env.check('the land cover tile is kept', env.raster_info(p) is not None)


def tasks(tier):
    T = [('4x4, 130 m', dict(rows=4, cols=4, metres=130.0,
                             core=(0, 0, 4, 4))),
         ('5x4 buffered, 240 m', dict(rows=5, cols=4, metres=240.0,
                                      core=(1, 1, 3, 2))),
         ('3x5 buffered, 190 m, non-square cells', dict(
             rows=3, cols=5, metres=190.0, core=(0, 2, 3, 2), stretch=1.1)),
         ('4x4, 150 m, oblong cells', dict(
             rows=4, cols=4, metres=152.0, core=(0, 0, 4, 4), free=SIX,
             stretch=1.5)),
         ('4x4, 150 m, narrow cells', dict(
             rows=4, cols=4, metres=152.0, core=(0, 0, 4, 4), free=SIX,
             stretch=0.5)),
         ('1x6, 280 m', dict(rows=1, cols=6, metres=280.0,
                             core=(0, 0, 1, 6))),
         ('6x2, 280 m', dict(rows=6, cols=2, metres=280.0,
                             core=(2, 0, 4, 1))),
         # just beyond and just short of the steps of the lags and widths
         ('4x4, 142 m, 6 free cells', dict(
             rows=4, cols=4, metres=142.1, core=(0, 0, 4, 4), free=SIX)),
         ('4x4, 141 m, 6 free cells', dict(
             rows=4, cols=4, metres=140.85, core=(0, 0, 4, 4), free=SIX)),
         ('4x4, 134 m, 6 free cells', dict(
             rows=4, cols=4, metres=133.9, core=(0, 0, 4, 4), free=SIX)),
         ('4x4, 133 m, 6 free cells', dict(
             rows=4, cols=4, metres=132.8, core=(0, 0, 4, 4), free=SIX)),
         ('4x4, 177 m, 6 free cells', dict(
             rows=4, cols=4, metres=177.5, core=(0, 0, 4, 4), free=SIX)),
         ('4x4, 176 m, 6 free cells', dict(
             rows=4, cols=4, metres=176.2, core=(0, 0, 4, 4), free=SIX)),
         ('4x4, 143 m, 6 free cells', dict(
             rows=4, cols=4, metres=143.3, core=(0, 0, 4, 4), free=SIX)),
         ('3x3, 1150 m', dict(rows=3, cols=3, metres=1150.0,
                              core=(0, 0, 3, 3))),
         ('9x9 buffered, 65 m, 8 free cells', dict(
             rows=9, cols=9, metres=65.0, core=(3, 3, 3, 3),
             free=[(0, 0), (0, 4), (4, 0), (4, 4), (8, 8), (8, 4), (4, 8),
                   (3, 3)]))]
    # small cells: more than 10 cells of lag, more than 30 of width
    T += [('1x64, 11 m, 6 free cells', dict(
              rows=1, cols=64, metres=11.0, core=(0, 0, 1, 64),
              free=[(0, c) for c in (0, 12, 30, 31, 45, 63)])),
          ('64x1, 11 m, 6 free cells', dict(
              rows=64, cols=1, metres=11.0, core=(0, 0, 64, 1),
              free=[(r, 0) for r in (0, 12, 30, 31, 45, 63)])),
          ('36x36 buffered, 13 m, 5 free cells', dict(
              rows=36, cols=36, metres=13.0, core=(16, 17, 4, 3),
              free=[(0, 0), (17, 18), (35, 35), (2, 33), (34, 2)])),
          ('72x70 buffered, 7 m, 9 free cells', dict(
              rows=72, cols=70, metres=7.0, core=(34, 33, 4, 3),
              free=[(0, 0), (35, 34), (71, 69), (2, 66), (70, 1), (15, 14),
                    (50, 49), (17, 52), (55, 14)]))]
    # and more than 30 cells of width along the diagonals
    T += [('64x64, core %d %d, 7.6 m, 5 free cells' % (r, c), dict(
        rows=64, cols=64, metres=7.6, core=(r, c, 2, 2),
        free=[(abs(r + dr * k), abs(c + dc * k)) for k in (0, 19, 33, 50, 59)
              ])) for r, dr in ((61, -1), (1, 1))
          for c, dc in ((61, -1), (1, 1))]
    if tier == 'thorough':
        T += [('6x6 buffered, 130 m', dict(rows=6, cols=6, metres=130.0,
                                           core=(1, 2, 4, 3))),
              ('7x5, 240 m, float classes', dict(
                  rows=7, cols=5, metres=240.0, core=(0, 0, 7, 5),
                  dtype='float32')),
              ('5x7 northern, 190 m, tall cells', dict(
                  rows=5, cols=7, metres=190.0, core=(1, 1, 3, 5),
                  lat=40.0, stretch=0.8)),
              ('26x26 buffered, 31 m, 9 free cells', dict(
                  rows=26, cols=26, metres=31.5, core=(12, 12, 2, 2),
                  free=[(12, 12), (0, 12), (12, 0), (2, 2), (13, 25),
                        (25, 12), (5, 12), (12, 20), (19, 5)]))]
    return [Task(n, tile, k, bounds='every class -1..15 per cell (%s), three '
                 'listed classes' % ('all' if 'free' not in k else
                                     '%d cells' % len(k['free'])),
                 validate=2) for n, k in T]
