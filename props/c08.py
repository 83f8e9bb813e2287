"""C08: shielding classes become the configured initial factors."""
import os

from sx.runner import Task
from props.util import cells

ID = 'C08'
ASSUMPTIONS = ['GDAL stores and returns the arrays it is given']
OUTSIDE = ('larger rasters and tables; the class value -99, which the code '
           'uses for no data; unsigned class rasters with a no-data value')


def factors(env, shape, nrow, dtype, nodata, pct):
    sm = env.load('shielding.shield_mult')
    cats = [env.int('cat%d' % i, 0, 900) for i in range(nrow)]
    sh = [env.real('s%d' % i, 0, 100) if pct == 'real' else
          env.int('s%d' % i, 0, 100) for i in range(nrow)]
    for i in range(nrow):
        for j in range(i):
            env.assume(env.Not(cats[i] == cats[j]))
        if nodata is not None:
            env.assume(env.Not(cats[i] == nodata))
    env.base_config(env.table([(c, 0.5, s) for c, s in zip(cats, sh)]))
    data = env.iarray('class', shape, -20, 900, dtype='int32')
    gt = (149.0, 0.01, 0.0, -35.0, 0.0, -0.02)
    env.mkdir('out', 'shielding')
    p = env.raster('out/e149s35.img', data.astype(dtype), gt, dtype=dtype,
                   nodata=nodata)
    before = env.read_raster(p)['bands'][0].copy()
    out = env.fn(sm, 'terrain_class2ms_orig')(p)
    env.check('file is in the shielding folder', os.path.dirname(
        os.path.abspath(out)) == os.path.join(os.path.dirname(p),
                                              'shielding'))
    r = env.read_raster(out)
    env.check('shape', tuple(r['bands'][0].shape) == tuple(shape))
    env.check('georeference', all(abs(a - b) < 1e-9 for a, b in
                                  zip(r['gt'], gt)))
    env.check('one band of reals', len(r['bands']) == 1 and
              r['dtype'][0].kind == 'f')
    a = r['bands'][0]
    for ix in cells(shape):
        w = 1.0
        for c, s in zip(cats, sh):
            w = env.If(data[ix] == c, s / 100.0, w)
        if nodata is not None:
            w = env.If(data[ix] == nodata, float('nan'), w)
        env.check('factor of cell %s' % (ix,), env.nanclose(a[ix], w))
    again = env.read_raster(p)['bands'][0]
    for ix in cells(shape):
        env.check('land cover unchanged', again[ix] == before[ix])
    env.observe('a', a)


def tasks(tier):
    T = [((2, 2), 3, 'int32', None, 'int'), ((1, 3), 2, 'int32', 0, 'int'),
         ((3, 1), 2, 'float32', -9999, 'real'),
         ((2, 2), 2, 'int16', 255, 'int')]
    if tier == 'thorough':
        T += [((3, 3), 5, 'int32', 77, 'real'), ((2, 4), 8, 'float32', None,
                                                 'int'),
              ((1, 1), 20, 'int32', 5, 'int'), ((5, 4), 3, 'int32', 0,
                                                'real')]
    return [Task('%dx%d cells, %d rows, %s, nodata %s' % (s + (n, d, nd)),
                 factors, dict(shape=s, nrow=n, dtype=d, nodata=nd, pct=p),
                 bounds='classes -20..900, factors 0..100 (%s)' % p)
            for s, n, d, nd, p in T]
