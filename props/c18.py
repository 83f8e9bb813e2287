"""C18: the topographic multiplier of a whole tile."""
import math
import os
import random

from sx.runner import Task
from props.c15 import profile_multiplier
from props.c16 import down
from props.util import DIRECTIONS, cell_size, check_grid, extent, pixel_for

ID = 'C18'
ASSUMPTIONS = ['exact arithmetic in place of float64',
               'GDAL and netCDF4 store and return arrays unchanged (float32 '
               'values within 1e-5)']
OUTSIDE = ('larger tiles; more than two unknown elevations at a time; '
           'escarpment factors within 1e-6 of 0.8 and 1.2')


def tile(env, z, metres, core=None, lat=-30.0, lon=147.0, nodata=None,
         holes=(), lo=0, hi=60, dtype='float64', part=0, stretch=1.0,
         lines=None, ranges=None):
    tm = env.load('topographic.topo_mult')
    gp = env.load('utilities.get_pixel_size_grid')
    env.base_config()
    env.git(True)
    nr, nc = len(z), len(z[0])
    px = pixel_for(metres, lat) * stretch
    py = pixel_for(metres, lat)
    x0, y0 = lon, lat + nr * py / 2
    gt = (x0, px, 0.0, y0, 0.0, -py)
    data = env.const([[0.0] * nc for _ in range(nr)], dtype)
    line, elev = {}, {}
    for r in range(nr):
        for c in range(nc):
            if (r, c) in holes:
                data[r, c] = nodata
                line[r, c], elev[r, c] = 0, None
                continue
            k = z[r][c]
            if k is None:
                k = env.int('z[%d,%d]' % (r, c), *(
                    ranges[(r + 2 * c) % 3] if ranges else (lo, hi)))
            e = k
            if part and z[r][c] is None:
                e = k + env.real('part[%d,%d]' % (r, c), 0, part)
            data[r, c] = e
            line[r, c], elev[r, c] = k, e
    folder = env.mkdir('out', 'topographic')
    p = env.raster('out/e147s30_dem.img', data, gt, dtype=dtype,
                   nodata=nodata)
    r0, c0, wr, wc = core or (0, 0, nr, nc)
    tm.topomult(p, extent(x0, y0, px, py, c0, r0, wc, wr))
    if lines and not lines.called:
        return              # organised differently: the other runs judge it
    # spacing: the mean of the cell sizes (C19), within rounding
    gw, gh = env.fn(gp, 'get_pixel_size_grids')(env.dataset(p))
    ds = 0.5 * (float(gw.mean()) + float(gh.mean()))
    w, h = cell_size(px, py, lat)
    env.check('spacing', abs(ds - (w + h) / 2) < 1e-4 * ds)
    tas = lon > 143 and y0 < -40
    for d in DIRECTIONS:
        dr, dc = down(d)
        m, sure = {}, True
        for r in range(nr):
            for c in range(nc):
                if 0 <= r - dr < nr and 0 <= c - dc < nc:
                    continue
                cells = []
                i, j = r, c
                while 0 <= i < nr and 0 <= j < nc:
                    cells.append((i, j))
                    i, j = i + dr, j + dc
                step = ds * (math.sqrt(2) if dr and dc else 1)
                if lines:
                    v, ok = lines.values([line[x] for x in cells], step), True
                else:
                    v, ok = profile_multiplier(
                        env, [line[x] for x in cells], len(cells), step)
                sure = env.And(sure, ok)
                m.update(zip(cells, v))
        for x, v in m.items():
            f = env.If(v >= 1.4, 0.9 * v, v * (1.25 - 0.25 * v))
            if tas and elev[x] is not None:
                f = env.If(elev[x] > 500, f * (1 + 0.00015 * elev[x]), f)
            m[x] = f

        def mean(r, c):
            return env.sum(m[min(max(r + a, 0), nr - 1),
                             min(max(c + b, 0), nc - 1)]
                           for a in (-1, 0, 1) for b in (-1, 0, 1)) / 9.0
        want = [[float('nan') if elev[r, c] is None else mean(r, c)
                 for c in range(c0, c0 + wc)] for r in range(r0, r0 + wr)]
        res = env.read_nc(os.path.join(folder, 'e147s30_mt_%s.nc' % d))
        check_grid(env, d, res, 'Mt', want, x0, y0, px, py, c0, r0, 3,
                   sure=sure)
        if res is not None and d in ('e', 'nw') and not lines:
            env.observe(d, res['vars'].get('Mt'))
    left = sorted(os.listdir(folder))
    env.check('only the eight results are left',
              left == sorted('e147s30_mt_%s.nc' % d for d in DIRECTIONS))
    env.check('the tile is kept', env.raster_info(p) is not None)


class AnyHills:
    """stands for multiplier_calc: some value per point, determined by the
    line and the spacing (what values, C15 says)"""

    def __init__(self, env, bands=((1, 1.71),)):
        self.bands = bands
        self.env, self.known, self.called, self.keep = env, {}, False, []

    def values(self, line, ds):
        line = list(line)
        if self.env.sym:
            import z3
            from sx import core, vals
            es = [z3.simplify(vals.to_flt(x).v) for x in line]
            self.keep += es
            key = tuple(e.get_id() for e in es), round(ds, 3)
            if key not in self.known:
                out = []
                for k in range(len(line)):
                    v = z3.Real('m~%d.%d' % (len(self.known), k))
                    lo, hi = self.bands[(k + len(self.known)) %
                                        len(self.bands)]
                    self.env._range(v, lo, hi)
                    core.ctx().add(v >= vals.rv(core.frac(lo)))
                    core.ctx().add(v <= vals.rv(core.frac(hi)))
                    out.append(vals.SFlt(v, False, False))
                self.known[key] = out
            return self.known[key]
        rng = random.Random(repr(([float(x) for x in line], round(ds, 3))))
        return [rng.choice((1.0, rng.uniform(1, 1.71))) for _ in line]

    def __call__(self, line, data_spacing):
        self.called = True
        v = self.values(line, float(data_spacing))
        m = self.env.const([[1.0]] * len(v), 'float64')
        for k, x in enumerate(v):
            m[k, 0] = x
        return m


def contract(env, nr, nc, lat, holes=()):
    """any DEM, whatever multiplier_calc makes of a line"""
    tm = env.load('topographic.topo_mult')
    mc = env.load('topographic.multiplier_calc')
    easy = lat > -40 or nr == 1
    f = AnyHills(env, *([] if easy else [((1.4, 1.71), (1.001, 1.399),
                                          (1.41, 1.71))]))
    for m in (mc, tm):
        if callable(getattr(m, 'multiplier_calc', None)):
            env.patch(m, 'multiplier_calc', f)
    z = [[None] * nc for _ in range(nr)]
    tile(env, z, 100.0, lat=lat, hi=3000, holes=holes, ranges=None if
         easy else ((501, 3000), (0, 500), (501, 3000)),
         nodata=-9999 if holes else None, lines=f)


N = None
A3 = [[5, 20, 3], [12, N, 30], [7, 16, 9]]
A4 = [[0, 12, 40, 8], [15, 33, N, 20], [22, 6, 18, 41], [3, 27, 10, 0]]
A5 = [[0, 10, 30, 12, 4], [14, 35, 52, 20, 9], [8, 40, N, 31, 2],
      [22, 18, 45, 16, 11], [5, 26, 13, 7, 0]]


def tasks(tier):
    T = [('3x3, 60 m', dict(z=A3, metres=60.0)),
         ('3x3 corner, 120 m', dict(
             z=[[N, 20, 33], [12, 44, 30], [7, 16, 9]], metres=120.0)),
         ('1x5, 100 m', dict(z=[[3, 25, N, 40, 10]], metres=100.0)),
         ('5x1, 100 m', dict(z=[[3], [25], [N], [40], [10]], metres=100.0)),
         ('1x1', dict(z=[[N]], metres=100.0, lo=-11000, hi=9000)),
         ('3x4 edge, 150 m', dict(
             z=[[5, 20, 33, 8], [N, 44, 30, 12], [7, 16, 9, 25]],
             metres=150.0)),
         ('1x4, 150 m, fractions', dict(
             z=[[5, 20, N, 8]], metres=150.0, part='0.998')),
         ('4x4, 200 m, wide cells, int16', dict(
             z=A4, metres=200.0, dtype='int16', stretch=1.3)),
         ('4x4 no data, 100 m', dict(
             z=A4, metres=100.0, nodata=-9999, holes=((1, 1), (3, 0)),
             dtype='int32')),
         ('1x5 no data, 100 m', dict(
             z=[[3, 45, N, 5, 10]], metres=100.0, nodata=0, lo=1,
             holes=((0, 3),))),
         ('3x4 not a number, 100 m', dict(
             z=[[5, 20, 33, 8], [11, N, 30, 12], [7, 16, 9, 25]],
             metres=100.0, nodata=float('nan'), holes=((0, 2), (2, 0)),
             dtype='float32')),
         ('5x1 no data, 100 m', dict(
             z=[[3], [N], [45], [40], [10]], metres=100.0, nodata=-1,
             holes=((0, 0), (2, 0)), dtype='float32')),
         ('3x3 Tasmania', dict(
             z=[[520, 515, 480], [501, N, 530], [470, 522, 500]],
             metres=100.0, lat=-42.0, lo=440, hi=560)),
         ('5x5 buffered', dict(z=A5, metres=100.0, core=(1, 1, 3, 2),
                               lo=43 if tier == 'quick' else 0, hi=60))]
    C = [(3, 4, -30.0, ()), (4, 3, -42.0, ((0, 1), (2, 2))),
         (1, 3, -42.0, ()), (1, 3, -42.0, ((0, 1),)), (2, 2, -30.0, ((0, 0),))]
    if tier == 'thorough':
        C += [(6, 5, -30.0, ((2, 2),)), (5, 7, -42.0, ()),
              (4, 1, -30.0, ())]
        for r in range(3):
            for c in range(4):
                z = [[5, 20, 33, 8], [11, 44, 30, 12], [7, 16, 9, 25]]
                z[r][c] = N
                T.append(('3x4 cell %d %d' % (r, c), dict(
                    z=z, metres=90.0, lo=-20, hi=100)))
        T += [('4x3 two cells', dict(
                  z=[[0, 12, 40], [15, N, 33], [N, 6, 18], [3, 27, 10]],
                  metres=120.0, hi=50)),
              ('1x6 two cells', dict(z=[[3, N, 20, N, 40, 10]],
                                     metres=100.0)),
              ('6x6 buffered', dict(
                  z=[r + [17] for r in A5] + [[9, 2, 28, 14, 1, 6]],
                  metres=60.0, core=(2, 1, 3, 3), hi=120))]
    return [Task(n, tile, k, validate=2, split=0 if 'part' in k else 2,
                 bounds='elevation of the free '
                 'cell(s) %s..%s m' % (k.get('lo', 0), k.get('hi', 60)))
            for n, k in T] + [
        Task('any DEM %dx%d at %g' % k[:3], contract, dict(
            nr=k[0], nc=k[1], lat=k[2], holes=k[3]), validate=1,
            bounds='every elevation 0..3000, every multiplier 1..1.71 of '
            'each point of each line')
        for k in C]
