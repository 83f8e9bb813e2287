"""C12: the shielding multiplier of a whole tile."""
import math
import os

from sx.runner import Task
from props.c09 import upwind
from props.c11 import wanted
from props.util import (DIRECTIONS, cell_size, cells, check_grid, extent,
                        pixel_for)

ID = 'C12'
ASSUMPTIONS = ['GDAL and netCDF4 store and return arrays unchanged (float32 '
               'values within 1e-5)', 'the DEM of the end-to-end runs is '
               'concrete (C10 covers every DEM)']
OUTSIDE = ('larger tiles; land cover without data when averaging (its '
           'influence on its neighbours is not specified)')
ROWS = [(3, 2.0, 85), (7, 0.2, 90), (12, 0.005, 60), (9, 0.1, 0)]


def hills(rows, cols, kind):
    """elevations; the slopes and aspects differ from cell to cell"""
    if kind == 'flat':
        return [[25.0] * cols for _ in range(rows)]
    return [[(100 + 18 * i * (1 if kind == 'a' else -1.3) + 7 * j +
              40 * math.sin(1.3 * i + 0.8 * j) * math.cos(0.9 * j - 0.4 * i))
             for j in range(cols)] for i in range(rows)]


def slope_aspect(z, rows, cols, gw, gh):
    """degrees and sector 1..8, from the documented definition"""
    def at(i, j):
        return z[min(max(i, 0), rows - 1)][min(max(j, 0), cols - 1)]
    out = {}
    for r, c in cells((rows, cols)):
        e = n = 0
        for k, w in ((-1, 1), (0, 2), (1, 1)):
            e += w * (at(r + k, c + 1) - at(r + k, c - 1)) / (8 * gw)
            n += w * (at(r - 1, c + k) - at(r + 1, c + k)) / (8 * gh)
        s = math.degrees(math.atan(math.hypot(e, n)))
        if s < 1e-6:
            out[r, c] = (0.0, 1)
            continue
        b = math.degrees(math.atan2(-e, -n)) % 360
        x = (b + 22.5) % 360 / 45
        assert 0.005 < x - math.floor(x) < 0.995, (r, c, x)
        out[r, c] = (s, int(x) % 8 + 1)
    return out


def tile(env, rows, cols, metres, core, kind, lat=-33.0, stretch=1.0,
         dtype='int32', nodata=None, free=None, zscale=1.0):
    sm = env.load('shielding.shield_mult')
    env.base_config(env.table(ROWS))
    env.git(True)
    px = pixel_for(metres, lat) * stretch
    gw = cell_size(px, 1e-4, lat)[0]
    py = (2 * metres - gw) / (cell_size(1e-4, 1e-4, lat)[1] / 1e-4)
    x0, y0 = 147.0, lat + rows * py / 2
    data = env.const([[ROWS[(i + 2 * j) % 4][0] for j in range(cols)]
                      for i in range(rows)], dtype)
    for r, c in (cells((rows, cols)) if free is None else free):
        data[r, c] = env.int('class[%d,%d]' % (r, c), -1, 15)
    gt = (x0, px, 0.0, y0, 0.0, -py)
    lc = env.raster('out/e147s33.img', data, gt, dtype=dtype, nodata=nodata)
    z = [[v * zscale for v in row] for row in hills(rows, cols, kind)]
    dem = env.raster('out/e147s33_dem.img', env.const(z, 'float64'), gt,
                     dtype='float64')
    folder = env.mkdir('out', 'shielding')
    r0, c0, nr, nc = core
    sm.shield(lc, dem, extent(x0, y0, px, py, c0, r0, nc, nr))
    sa = slope_aspect(z, rows, cols, *cell_size(px, py, lat))
    ms, none = {}, {}
    for ix in cells((rows, cols)):
        v = 1.0
        for cat, _, s in ROWS:
            v = env.If(data[ix] == cat, s / 100.0, v)
        ms[ix] = v
        none[ix] = False if nodata is None else data[ix] == nodata
    size = int(100.0 // metres)
    assert nodata is None or size == 0
    for d in DIRECTIONS:
        res = env.read_nc(os.path.join(folder, 'e147s33_ms_%s.nc' % d))
        want = []
        for r in range(r0, r0 + nr):
            row = []
            for c in range(c0, c0 + nc):
                if size:
                    o = upwind(d, size)
                    f = env.sum(ms.get((r + i, c + j), 1.0)
                                for i, j in o) / float(len(o))
                else:
                    f = ms[r, c]
                w = wanted(env, f, sa[r, c][0], sa[r, c][1], d)[1]
                row.append(env.If(none[r, c], float('nan'), w))
            want.append(row)
        check_grid(env, d, res, 'Ms', want, x0, y0, px, py, c0, r0, 20)
        if res is not None and d in ('e', 'nw'):
            env.observe(d, res['vars'].get('Ms'))
    left = sorted(os.listdir(folder))
    env.check('only the eight results are left',
              left == sorted('e147s33_ms_%s.nc' % d for d in DIRECTIONS))
    env.check('the tiles are kept', env.raster_info(lc) is not None and
              env.raster_info(dem) is not None)


def tasks(tier):
    T = [('3x4, 130 m', dict(rows=3, cols=4, metres=130.0, kind='a',
                             core=(0, 0, 3, 4))),
         ('3x3 flat, 160 m', dict(rows=3, cols=3, metres=160.0, kind='flat',
                                  core=(0, 0, 3, 3))),
         ('3x3, 101 m, no data', dict(rows=3, cols=3, metres=101.0, kind='b',
                                      core=(0, 0, 3, 3), nodata=7)),
         ('4x4 buffered, 70 m', dict(rows=4, cols=4, metres=70.0, kind='b',
                                     core=(1, 1, 2, 3), zscale=0.4)),
         ('5x6 buffered, 45 m, tall cells', dict(
             rows=5, cols=6, metres=45.0, kind='b', core=(1, 2, 3, 3),
             stretch=0.8, lat=-42.0, zscale=0.5)),
         ('8x7 buffered, 30 m', dict(
             rows=8, cols=7, metres=30.0, kind='b', core=(3, 3, 3, 2),
             zscale=1.0, dtype='float32')),
         ('4x3, 52 m, oblong cells', dict(
             rows=4, cols=3, metres=52.0, kind='b', core=(0, 0, 4, 3),
             stretch=1.5, zscale=0.4)),
         ('2x3, 6 m', dict(rows=2, cols=3, metres=6.0, kind='a',
                           core=(0, 0, 2, 3), zscale=0.05)),
         ('3x2, 11 m', dict(rows=3, cols=2, metres=11.0, kind='b',
                            core=(0, 0, 3, 2), zscale=0.05)),
         ('6x5 flat, 24 m', dict(rows=6, cols=5, metres=24.0, kind='flat',
                                 core=(0, 0, 6, 5),
                                 free=[(0, 0), (2, 2), (5, 4), (3, 1),
                                       (4, 2), (1, 3), (2, 4)]))]
    if tier == 'thorough':
        T += [('2x2, 2.5 m', dict(rows=2, cols=2, metres=2.5, kind='a',
                                  core=(0, 0, 2, 2), zscale=0.01)),
              ('7x7, 21 m', dict(rows=7, cols=7, metres=21.0, kind='a',
                                 core=(1, 1, 5, 5), zscale=1.0, lat=50.0)),
              ('12x12, 19 m', dict(rows=12, cols=12, metres=19.0, kind='b',
                                   core=(5, 5, 2, 2), zscale=0.2))]
    return [Task(n, tile, k, bounds='every class -1..15 per cell (%s), four '
                 'listed classes, slopes and aspects of one DEM' % (
                     'all' if k.get('free') is None else
                     '%d cells' % len(k['free'])), validate=1)
            for n, k in T]
