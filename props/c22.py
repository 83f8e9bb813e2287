"""C22: the maximum over the directions."""
import os

from sx.runner import Task
from props.util import cells
from props.c21 import GT, ORDER, TILE, georef, layers

ID = 'C22'
ASSUMPTIONS = ['GDAL stores bands, names, nodata values and georeference as '
               'it is told to']
OUTSIDE = 'larger tiles (cells are independent)'


def check_max(env, label, p, bands, shape, gt, sure=None):
    """bands: per direction a function of the cell -> (value, no data)"""
    r = env.read_raster(p)
    env.check(label + ': file', r is not None)
    if r is None:
        return
    env.check(label + ': one band', len(r['bands']) == 1)
    b = r['bands'][0]
    env.check(label + ': nodata value', r['nodata'][0] == -9999)
    georef(env, label, r, gt)
    env.check(label + ': size', tuple(b.shape) == tuple(shape))
    if tuple(b.shape) != tuple(shape):
        return
    for ix in cells(shape):
        vs = [f(ix) for f in bands]
        none = env.And(*[g for _, g in vs])
        env.check('%s: none at %s' % (label, ix),
                  env.Implies(none, b[ix] == -9999))
        env.check('%s: not below any at %s' % (label, ix), env.And(*[
            env.Or(g, b[ix] >= v - 3e-4) for v, g in vs]))
        env.check('%s: one of them at %s' % (label, ix), env.Or(none, *[
            env.And(env.Not(g), env.close(b[ix], v, 27)) for v, g in vs]))
    env.observe(label, b)


def maximum(env, shape, tiles, nodata=True):
    cv = env.load('utilities.convert')
    env.fn(cv, 'Converter')
    env.mkdir('out', 'M3')
    env.mkdir('out', 'M3_max')
    all_ = []
    for k in range(tiles):
        n = TILE if k == 0 else 'e15%d.5s21.25' % k
        s = shape if k == 0 else (shape[1] + k, shape[0])
        gt = GT if k == 0 else (150.5 + k, 0.02, 0.0, -21.25, 0.0, -0.01)
        bs = []
        for d in ORDER:
            a = env.farray('%s_%s' % (d, k), s, '0.02', 27)
            for ix in cells(s) if nodata else ():
                a[ix] = env.If(env.bool('%s%d none%s' % (d, k, ix)), -9999.0,
                               a[ix])
            bs.append(a)
        env.raster('out/M3/%s.tif' % n, bs, gt, nodata=-9999.0,
                   dtype='float32', driver='GTiff')
        all_.append((n, s, gt, bs))
    c = cv.Converter([t[0] for t in all_], env.path('out'))
    for t in all_:
        c.process_max_tile(t[0])
    for n, s, gt, bs in all_:
        check_max(env, n, env.path('out', 'M3_max', n + '.tif'), [
            lambda ix, a=a: (a[ix], a[ix] == -9999) for a in bs], s, gt)
    env.check('listed', [os.path.abspath(x) for x in c.max_tile_files] == [
        env.path('out', 'M3_max', t[0] + '.tif') for t in all_])


def chain(env, shape):
    """from the multiplier files to the maximum"""
    cv = env.load('utilities.convert')
    env.fn(cv, 'Converter')
    v = layers(env, TILE, shape, GT, missing=[
        (f, d) for f in ('terrain', 'topographic') for d in ORDER])
    env.mkdir('out', 'M3')
    env.mkdir('out', 'M3_max')
    cv.Converter([TILE], env.path('out')).run()
    m3 = env.read_raster(env.path('out', 'M3', TILE + '.tif'))
    env.check('combined', m3 is not None and len(m3['bands']) == 8)
    check_max(env, TILE, env.path('out', 'M3_max', TILE + '.tif'), [
        lambda ix, b=b: (b[ix], b[ix] == -9999) for b in m3['bands']],
        shape, GT)


def tasks(tier):
    b = 'every value 0.02..27 or no data per cell and direction'
    T = [Task('maximum %dx%d' % s, maximum, dict(shape=s, tiles=1), bounds=b,
              validate=2)
         for s in ([(1, 1), (2, 2), (1, 3)] if tier == 'quick' else
                   [(1, 1), (3, 3), (1, 4), (4, 2)])]
    T += [Task('two tiles', maximum, dict(shape=(1, 2), tiles=2), bounds=b),
          Task('complete data', maximum, dict(shape=(2, 1), tiles=1,
                                              nodata=False), bounds=b),
          Task('from the multipliers', chain, dict(
              shape=(2, 2) if tier == 'quick' else (3, 3)), bounds=b,
              validate=2)]
    return T
