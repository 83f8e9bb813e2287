"""C03: cells keep their position from the raster to the saved tile."""
import math

import z3

from sx.runner import Task

ID = 'C03'
ASSUMPTIONS = [
    'every floating-point operation of the coordinate arithmetic returns the '
    'real result with an absolute error of at most 1e-9 (true for doubles '
    'below 4e6, here |coordinate| <= 180 and at most 40 cells per axis)',
    'GDAL stores the size and geotransform it is given']
OUTSIDE = 'pixel sizes not listed; rasters of more than 3 tiles per axis'


def rounding(c):
    """floating-point results: exact result + bounded error"""
    def f(r):
        r = z3.simplify(r)
        if z3.is_rational_value(r):
            return r
        d = c.fresh('rnd', z3.RealSort())
        c.define(z3.And(d <= z3.Q(1, 10 ** 9), d >= -z3.Q(1, 10 ** 9)))
        return r + d
    return f


def geo(env, pw, ph, tx, ty, up):
    sx, sy = math.ceil(1.0 / pw), math.ceil(1.0 / ph)
    w = env.int('cols', 1, tx * sx)
    h = env.int('rows', 1, ty * sy)
    w, h = int(w), int(h)
    x0 = env.real('x_left', -180, 175)
    y0 = env.real('y_top', -80, 85)
    p = env.raster('dem.img', env.const([[float(1 + r + c) for c in
                                          range(w)] for r in range(h)]),
                   (x0, pw, 0.0, y0, 0.0, -ph), dtype='float32')
    am = env.load('all_multipliers')
    nct = env.load('utilities.nctools')
    out = env.mkdir('out')
    am.output_folder = out
    tg = am.TileGrid(up, p)
    mul = am.Multipliers(p, p)
    mul.open_dem()
    tiles = am.get_tiles(tg)
    sc = 100 * pw
    sch = 100 * ph
    for k, t in enumerate(tiles):
        x1, x2, y1, y2 = [int(v) for v in tg.get_gridlimit(k)]
        u1, u2, v1, v2 = [int(v) for v in tg.get_gridlimit_buffer(k)]
        # concrete file names: the names are the subject of C04
        f = mul.cut_dem(['tile%d' % k, t[1], t[2]])
        i = env.raster_info(f)
        env.check('size of the clipped DEM', env.And(
            i['w'] == u2 - u1, i['h'] == v2 - v1))
        gt = i['gt']
        want = (x0 + u1 * pw, pw, 0.0, y0 - v1 * ph, 0.0, -ph)
        env.check('geotransform of the clipped DEM', env.And(*[
            env.close(a, b, s) for a, b, s in
            zip(gt, want, (sc, sc, sc, sch, sch, sch))]))
        lon, lat = nct.get_lat_lon(t[2], gt[1], -gt[5])
        env.check('length of the longitudes', len(lon) == x2 - x1)
        env.check('length of the latitudes', len(lat) == y2 - y1)
        env.check('longitudes are those of the raster cells', env.And(*[
            env.close(v, x0 + (x1 + c + 0.5) * pw, sc)
            for c, v in enumerate(lon)]))
        env.check('latitudes are those of the raster cells', env.And(*[
            env.close(v, y0 - (y1 + r + 0.5) * ph, sch)
            for r, v in enumerate(lat)]))
        data = env.const([[1000.0 * r + c for c in range(u1, u2)]
                          for r in range(v1, v2)])
        cl = nct.clip_array(data, gt[0], -gt[3], gt[1], -gt[5], t[2])
        env.check('clipped array is the core of the tile',
                  [list(map(float, r)) for r in cl] ==
                  [[1000.0 * r + c for c in range(x1, x2)]
                   for r in range(y1, y2)])
    env.observe('n', len(tiles))


def tasks(tier):
    combos = [(0.5, 0.5, 3, 2, 0.5), (0.3, 0.7, 2, 2, 0.31),
              (0.14285714, 0.5, 1, 3, 0.3), (0.55, 0.27, 2, 1, 0.6)]
    if tier == 'thorough':
        combos += [(0.1, 0.35, 1, 3, 0.3), (0.2, 0.2, 2, 2, 0.25),
                   (0.3, 0.3, 3, 3, 0.65), (1.0, 0.15, 3, 1, 0.1)]
    return [Task('pixel %g x %g, up to %dx%d tiles, upwind %g' % c, geo,
                 dict(zip(('pw', 'ph', 'tx', 'ty', 'up'), c)),
                 rounding=rounding, validate=2,
                 bounds='every raster size up to %d x %d tiles; upper left '
                 'corner any real in lon -180..175, lat -80..85' % c[2:4])
            for c in combos]
