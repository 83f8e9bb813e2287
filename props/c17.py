"""C17: conservatism of the topographic multiplier; Tasmania."""
import os

from sx.runner import Task
from props.util import DIRECTIONS, cells, extent

ID = 'C17'
ASSUMPTIONS = ['exact arithmetic in place of float64']
OUTSIDE = 'larger arrays (cells are independent); origins not listed'


def conservatism(env, shape, dtype):
    tm = env.load('topographic.topo_mult')
    m = env.farray('m', shape, 1, 1.71, dtype=dtype)
    keep = m.copy()
    out = env.fn(tm, 'remove_conservatism')(m)
    env.check('shape', tuple(out.shape) == tuple(shape))
    for ix in cells(shape):
        v = keep[ix]
        w = env.If(v >= 1.4, 0.9 * v, v * (1.25 - 0.25 * v))
        env.check('multiplier of %s' % (ix,), env.close(out[ix], w))
        env.check('1 stays 1 %s' % (ix,), env.Implies(v == 1,
                                                      out[ix] == 1))
        env.check('never below 1 %s' % (ix,), out[ix] >= 1 - 1e-6)
    env.observe('out', out)


def elevation(env, shape):
    tm = env.load('topographic.topo_mult')
    m = env.farray('m', shape, 1, 1.71)
    z = env.farray('z', shape, -50, 3000, nan=True)
    keep, kz = m.copy(), z.copy()
    out = env.fn(tm, 'tasmania')(m, z)
    env.check('shape', tuple(out.shape) == tuple(shape))
    for ix in cells(shape):
        hi = env.And(env.Not(env.isnan(kz[ix])), kz[ix] > 500)
        zz = env.If(hi, kz[ix], 0.0)
        env.check('multiplier of %s' % (ix,), env.close(
            out[ix], keep[ix] * (1 + 0.00015 * zz)))
        env.check('DEM unchanged', env.nanclose(z[ix], kz[ix]))
    env.observe('out', out)


def region(env, x0, y0, inside):
    """a level DEM: 1 everywhere, scaled in Tasmania only"""
    tm = env.load('topographic.topo_mult')
    env.base_config()
    env.git(True)
    px = 0.01
    z = env.int('z', -50, 3000)
    dem = env.const([[0.0] * 2] * 2, 'float64')
    for ix in cells((2, 2)):
        dem[ix] = z
    folder = env.mkdir('out', 'topographic')
    p = env.raster('out/e1s2_dem.img', dem, (x0, px, 0.0, y0, 0.0, -px),
                   dtype='float64')
    tm.topomult(p, extent(x0, y0, px, px, 0, 0, 2, 2))
    for d in DIRECTIONS:
        r = env.read_nc(os.path.join(folder, 'e1s2_mt_%s.nc' % d))
        env.check('%s written' % d, r is not None and 'Mt' in r['vars'] and
                  tuple(r['vars']['Mt'].shape) == (2, 2))
        if r is None or 'Mt' not in r['vars']:
            continue
        for ix in cells((2, 2)):
            w = env.If(z > 500, 1 + 0.00015 * z, 1.0) if inside else 1.0
            env.check('%s of %s' % (d, ix), env.close(r['vars']['Mt'][ix],
                                                      w, 2))


def tasks(tier):
    sh = [(1, 3), (2, 2)] if tier == 'quick' else [(3, 3), (1, 6), (5, 1)]
    T = []
    for s in sh:
        T.append(Task('conservatism %dx%d' % s, conservatism,
                      dict(shape=s, dtype='float64'),
                      bounds='every multiplier 1..1.71', validate=3))
        T.append(Task('elevation %dx%d' % s, elevation, dict(shape=s),
                      bounds='every multiplier 1..1.71, elevation '
                      '-50..3000 or missing', validate=3))
    for x0, y0, t in ((146.5, -42.0, True), (143.01, -40.01, True),
                      (143.0, -42.0, False), (146.5, -40.0, False),
                      (142.5, -42.0, False), (146.5, -39.5, False),
                      (120.0, -20.0, False), (146.5, 42.0, False),
                      (-70.0, -42.0, False), (148.9, -43.9, True),
                      (159.0, -54.7, True), (170.0, -43.5, True),
                      (179.0, -40.5, True), (143.01, -60.0, True),
                      (115.0, -43.5, False), (-179.0, -43.5, False),
                      (170.0, -39.0, False)):
        T.append(Task('tile at %g %g' % (x0, y0), region, dict(
            x0=x0, y0=y0, inside=t), bounds='every elevation -50..3000 of a '
            'level tile', validate=1))
    return T
