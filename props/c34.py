"""C34: the category codes on the grid of the DEM."""
import logging
import sys

from sx.runner import Task
from props.c25 import SETTLEMENTS, USES, strips
from props.util import cells

ID = 'C34'
ASSUMPTIONS = ['polygons are boxes [a, b] x [0, 1] in the symbolic world',
               'GDAL burns the value of the last feature that holds the '
               'centre of a cell, limited to the range of the data type',
               'areas that overlap are left out; centres of cells are at '
               'least 0.0001 degrees from the border of an area']
OUTSIDE = 'larger rasters; rotated or projected DEMs; other formats'


def spread(env, name, boxes, centres):
    """no border of a box is near the centre of a cell"""
    for a, b in boxes:
        for x in centres:
            for e in (a, b):
                env.assume(env.Or(e - x > 1e-4, x - e > 1e-4))


def check_raster(env, path, topo, boxes, code, gt, nr, nc):
    r = env.read_raster(path)
    env.check('raster written', r is not None)
    if r is None:
        return
    t = env.read_raster(topo)
    env.check('one band', len(r['bands']) == 1)
    a = r['bands'][0]
    env.check('size of the DEM', tuple(a.shape) == (nr, nc))
    env.check('georeference of the DEM', all(
        abs(x - y) < 1e-9 for x, y in zip(r['gt'], gt)))
    env.check('projection of the DEM', r['proj'] == t['proj'] and
              bool(r['proj']))
    env.check('0 is declared as no data', r['nodata'] == [0])
    if tuple(a.shape) != (nr, nc):
        return
    for i, j in cells((nr, nc)):
        x = gt[0] + (j + 0.5) * gt[1]
        y = gt[3] + (i + 0.5) * gt[5]
        want = 0
        if 0 < y < 1:
            for b, c in zip(boxes, code):
                for p, q in b:
                    want = env.If(env.And(p < x, x < q), c, want)
        env.check('cell (%d, %d)' % (i, j), a[i, j] == want)
    env.observe('raster', a)


def burn(env, parts, nr, nc, px, py, x0, y0, dtype='float32', more=()):
    """rasterize itself: area k has parts[k] boxes"""
    logging.disable(logging.CRITICAL)
    try:
        pp = env.load('pre_process')
        gt = (x0, px, 0.0, y0, 0.0, -py)
        n = sum(parts)
        st = strips(env, 's', n)
        spread(env, 's', st, [x0 + (j + 0.5) * px for j in range(nc)])
        boxes = [[s for i, s in enumerate(st) if i % len(parts) == k]
                 for k in range(len(parts))]
        code = [
            env.int("code[%d]" % k, 0, 511) for k in range(len(parts))]
        props = {'NAME': 'str:20', 'CAT': 'int', 'CATX': 'int'}
        rows = [(b, {'NAME': 'x', 'CAT': c, 'CATX': 7})
                for b, c in zip(boxes, code)]
        for i in more:              # no geometry
            rows.insert(i, (None, {'NAME': 'x', 'CAT': 3, 'CATX': 7}))
        s = env.vector('o.shp', props, rows)
        z = env.const([[float(3 + i + j) for j in range(nc)]
                       for i in range(nr)], dtype)
        dem = env.raster('in/dem.img', z, gt, dtype=dtype)
        out = env.path('out', 'o.tif')
        env.fn(pp, 'rasterize')(s, out, dem, None)
    finally:
        logging.disable(logging.NOTSET)
    check_raster(env, out, dem, boxes, code, gt, nr, nc)
    t = env.read_raster(dem)
    env.check('the DEM is kept', t is not None and env.And(*[
        t['bands'][0][i, j] == 3 + i + j for i, j in cells((nr, nc))]))


def alone(env, parts, nr, nc, px, py, x0, y0):
    """python rasterize.py -i shapefile -t DEM"""
    logging.disable(logging.CRITICAL)
    try:
        gt = (x0, px, 0.0, y0, 0.0, -py)
        st = strips(env, 's', parts)
        spread(env, 's', st, [x0 + (j + 0.5) * px for j in range(nc)])
        code = [env.int('code[%d]' % k, 0, 511) for k in range(parts)]
        s = env.vector('o.shp', {'NAME': 'str:20', 'CAT': 'int'}, [
            ([b], {'NAME': 'x', 'CAT': c}) for b, c in zip(st, code)])
        dem = env.raster('in/dem.img', env.const([[1.0] * nc] * nr,
                                                 'float32'), gt,
                         dtype='float32')
        env.patch(sys, 'argv', ['rasterize.py', '-i', s, '-t', dem])
        env.patch(sys, 'path', list(sys.path))
        env.main('rasterize')
    finally:
        logging.disable(logging.NOTSET)
    check_raster(env, env.path('test.tiff'), dem, [[b] for b in st], code,
                 gt, nr, nc)


def script(env, types, lands, topo, mask='None'):
    """python pre_process.py -c conf"""
    logging.disable(logging.CRITICAL)
    try:
        nr, nc, px, py, x0, y0 = 3, 4, 1.1, 0.45, -1.5, 1.35
        gt = (x0, px, 0.0, y0, 0.0, -py)
        st = strips(env, 'a', len(lands))
        spread(env, 'a', st, [x0 + (j + 0.5) * px for j in range(nc)])
        tn = [env.choice('type[%d]' % k, t) for k, t in enumerate(types)]
        ln = [env.choice('use[%d]' % k, t) for k, t in enumerate(lands)]
        # settlements: left and right of 1
        s = env.vector('s.shp', {'SUA': 'str:100', 'CAT': 'int'}, [
            ([(-9 + 10 * k, 1 + 10 * k)], {'SUA': t, 'CAT': 5})
            for k, t in enumerate(tn)])
        for a, b in st:             # each in one settlement
            env.assume(env.Or(b < 1 - 1e-3, a > 1 + 1e-3))
        lu = env.vector('l.shp', {'MB': 'str:100', 'N': 'int'}, [
            ([b], {'MB': t, 'N': k}) for k, (b, t) in enumerate(zip(st, ln))])
        dem, other = [env.raster(
            'in/%s.img' % f, env.const([[1.0] * c] * nr, 'float32'), g,
            dtype='float32') for f, c, g in (
            ('dem', nc, gt), ('other', nc - 1, gt))]
        if topo == 'file':
            dem, other = other, dem
            nc -= 1
        inter, out = env.path('out', 'o.shp'), env.path('out', 'o.tif')
        conf = env.config({
            'Preprocessing': dict(
                settlement_data=s, settlement_cat='SUA', land_use_data=lu,
                land_use_cat='MB', crop_mask=mask, topo_crop='True',
                input_topo='True' if topo == 'True' else dem,
                output_shapefile=inter, output_rasterized=out),
            'inputValues': dict(dem_data=dem if topo == 'True' else other)})
        env.patch(sys, 'argv', ['pre_process.py', '-c', conf])
        env.patch(sys, 'path', list(sys.path))
        env.main('pre_process')
    finally:
        logging.disable(logging.NOTSET)
    code = []
    for b, t in zip(st, ln):
        left = SETTLEMENTS.get(tn[0], 0)
        right = SETTLEMENTS.get(tn[1], 0) if len(tn) > 1 else 0
        c = env.If(b[0] < 1, left * 100, right * 100)
        code.append(c + USES.get(t, 0))
    v = env.read_vector(inter)
    env.check('shapefile written', v is not None and
              len(v['rows']) == len(st))
    check_raster(env, out, dem, [[b] for b in st], code, gt, nr, nc)


def tasks(tier):
    q = tier == 'quick'
    B = [('1 area', dict(parts=(1,), nr=4, nc=5, px=0.6, py=0.3, x0=-2.0,
                         y0=1.07)),
         ('2 areas', dict(parts=(1, 1), nr=2, nc=4, px=1.0, py=0.9, x0=-1.3,
                          y0=1.2, dtype='int16', more=(1,))),
         ('2 areas, one of 2 parts', dict(parts=(2, 1), nr=1, nc=4, px=1.25,
                                          py=0.5, x0=-3.0, y0=0.8))]
    if not q:
        B += [('3 areas', dict(parts=(1, 1, 1), nr=2, nc=5, px=1.0, py=0.4,
                               x0=-2.0, y0=1.0)),
              ('1 area, fine', dict(parts=(1,), nr=6, nc=12, px=0.4, py=0.2,
                                    x0=-2.0, y0=1.15))]
    T = [Task('rasterise ' + n, burn, k, validate=2,
              bounds='every position and size, every code 0..511')
         for n, k in B]
    T.append(Task('rasterize.py', alone, dict(
        parts=2, nr=2, nc=3, px=1.5, py=0.7, x0=-3.0, y0=1.2), validate=2,
        bounds='every position and size, every code 0..511'))
    five = list(SETTLEMENTS) + ['Village']
    S = [('the DEM', dict(types=[['City', None]], lands=[list(USES)],
                          topo='True')),
         ('a file', dict(types=[five, ['Urban']], lands=[['Water']],
                         topo='file')),
         ('two areas', dict(types=[['City'], ['Small Town', None]],
                            lands=[['Transport', 'Forest'], ['Parkland']],
                            topo='True'))]
    return T + [Task('script, ' + n, script, k, validate=2,
                     bounds='every position and size') for n, k in S]
