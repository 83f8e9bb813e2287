"""C28: the land cover on the grid of the DEM tile; the clipped DEM."""
import os

from sx.runner import Task

ID = 'C28'
ASSUMPTIONS = ['GDAL\'s ReprojectImage between grids of the same projection: '
               'nearest neighbour takes the source cell that contains the '
               'centre of the destination cell, other methods give some '
               'value between those of the source; cells outside the source '
               'and no-data cells leave the destination alone']
OUTSIDE = ('cell centres within 0.2 % of a cell of a border of the land '
           'cover; values in different projections')
UTM = ('PROJCS["WGS 84 / UTM zone 55S",GEOGCS["WGS 84",DATUM["WGS_1984",'
       'SPHEROID["WGS 84",6378137,298.257223563]],PRIMEM["Greenwich",0],UNIT'
       '["degree",0.0174532925199433]],PROJECTION["Transverse_Mercator"],'
       'PARAMETER["latitude_of_origin",0],PARAMETER["central_meridian",147],'
       'PARAMETER["scale_factor",0.9996],PARAMETER["false_easting",500000],'
       'PARAMETER["false_northing",10000000],UNIT["metre",1]]')


def matching(env, name, dst, src):
    """source (row, column) of every destination cell, as conditions"""
    (h, w, g), (sh, sw, s) = dst, src

    def axis(k, o0, ostep, s0, sstep, n):
        p = (o0 + (k + 0.5) * ostep - s0) / sstep
        # not near a border of a source cell
        env.assume(env.And(*[env.Or(p < j - 0.002, p > j + 0.002)
                             for j in range(n + 1)]))
        return [env.And(p > j, p < j + 1) for j in range(n)]
    cols = [axis(c, g[0], g[1], s[0], s[1], sw) for c in range(w)]
    rows = [axis(r, g[3], g[5], s[3], s[5], sh) for r in range(h)]
    return rows, cols


def landcover(env, size, px, lsize, lpx, kind='int32', inside=False,
              paths=True, shift=True, nodata=None):
    am = env.load('all_multipliers')
    (h, w), (sh, sw) = size, lsize
    g = (148.25, px, 0.0, -20.5, 0.0, -px)
    if shift:
        ex = env.real('x of the land cover', -sw * lpx, w * px)
        ey = env.real('y of the land cover', -sh * lpx, h * px)
    else:
        ex = ey = 0.0
    if inside:
        env.assume(env.And(ex < 0.5 * px, ey < 0.5 * px,
                           ex + sw * lpx > (w - 0.5) * px,
                           ey + sh * lpx > (h - 0.5) * px))
    sg = (148.25 + ex, lpx, 0.0, -20.5 - ey, 0.0, -lpx)
    if kind in ('int32', 'uint8', 'int16'):
        cls = env.iarray('class', lsize, 0 if kind == 'uint8' else -9,
                         120, dtype=kind)
    else:
        cls = env.farray('class', lsize, -9, 120, dtype=kind)
    dem = env.raster('dem_tile.img', env.const(
        [[float(r + c) for c in range(w)] for r in range(h)], 'float32'), g,
        dtype='float32')
    lcv = env.raster('lc.tif', cls, sg, dtype=kind, driver='GTiff',
                     nodata=nodata)
    rows, cols = matching(env, 'lc', (h, w, g), (sh, sw, sg))
    out = env.path('out', 't.img')
    f = env.fn(am, 'reproject_dataset')
    if paths is None:
        f(env.dataset(lcv), dem, out)
    elif paths:
        f(lcv, dem, out)
    else:
        f(lcv, env.dataset(dem), out)
    r = env.read_raster(out)
    env.check('written', r is not None)
    if r is None:
        return
    env.check('one band', len(r['bands']) == 1)
    b = r['bands'][0]
    env.check('size of the DEM tile', tuple(b.shape) == (h, w))
    env.check('georeference of the DEM tile', env.And(*[
        env.close(x, y) for x, y in zip(r['gt'], g)]))
    env.check('projection of the DEM tile', same_crs(r['proj'], 4326))
    if kind == 'int32':
        env.check('integer classes stay integer', r['dtype'][0].kind == 'i')
    if tuple(b.shape) != (h, w):
        return
    for i in range(h):
        for j in range(w):
            ok, hit = [], []
            for k in range(sh):
                for m in range(sw):
                    c = env.And(rows[i][k], cols[j][m])
                    if nodata is not None:
                        c = env.And(c, env.Not(cls[k, m] == nodata))
                    hit.append(c)
                    ok.append(env.Implies(c, env.close(b[i, j], cls[k, m],
                                                       100)))
            env.check('class of cell (%d, %d)' % (i, j), env.And(*ok))
            if not inside:
                env.check('no class outside the land cover (%d, %d)' % (
                    i, j), env.Or(b[i, j] == 0, *hit))
    env.observe('lc', b)


def same_crs(wkt, code):
    from osgeo import osr
    a, b = osr.SpatialReference(), osr.SpatialReference()
    if not wkt or a.ImportFromWkt(wkt):
        return False
    b.ImportFromEPSG(code)
    return bool(a.IsSame(b, ['IGNORE_DATA_AXIS_TO_SRS_AXIS_MAPPING=YES']))


def projection(env, code):
    """another projection of the land cover: grid of the DEM tile all the
    same (values outside this check)"""
    am = env.load('all_multipliers')
    g = (148.25, 0.01, 0.0, -20.5, 0.0, -0.01)
    x0 = env.real('x0', 148.2, 148.3)
    dem = env.raster('d.img', env.const([[1.0, 2.0, 3.0], [4.0, 5.0, 6.0]],
                                        'float32'),
                     (x0,) + g[1:], dtype='float32')
    lcv = env.raster('lc.tif', env.const([[1] * 5] * 5, 'int32'),
                     (620000.0, 5000.0, 0.0, 7745000.0, 0.0, -5000.0),
                     dtype='int32', proj=UTM, driver='GTiff')
    out = env.path('out', 't.img')
    kw = {} if code is None else dict(match_projection=code)
    env.fn(am, 'reproject_dataset')(lcv, dem, out, **kw)
    i = env.raster_info(out)
    env.check('size', (i['w'], i['h']) == (3, 2))
    env.check('georeference', env.And(*[
        env.close(a, b) for a, b in zip(i['gt'], (x0,) + g[1:])]))
    if env.sym:
        p = env.g.files[os.path.abspath(out)].proj
        rep = [r for r in env.g.reprojections
               if r[1] is env.g.files[os.path.abspath(out)]]
        env.check('reprojected once', len(rep) == 1)
        for r in rep:
            env.check('from its own projection', not r[2] or r[2] == UTM)
            env.check('to that of the output', not r[3] or r[3] == p)
    else:
        r = env.read_raster(out)
        p = r['proj']
        env.check('from its own projection', bool((r['bands'][0] == 1).all()))
    env.check('projection', same_crs(p, code or 4326))


def missing(env, which):
    """missing rasters are errors"""
    am = env.load('all_multipliers')
    dem = env.raster('d.img', env.const([[1.0, 2.0]], 'float32'),
                     (148.0, 0.5, 0.0, -20.0, 0.0, -0.5), dtype='float32')
    lcv = env.raster('l.img', env.const([[1, 2]], 'int32'),
                     (148.0, 0.5, 0.0, -20.0, 0.0, -0.5), dtype='int32')
    n = env.int('n', 0, 3)
    out = env.path('out', 't.img')
    bad = env.path('in', 'nothing%s.img' % int(n))
    try:
        env.fn(am, 'reproject_dataset')(bad if which == 'src' else lcv, bad
                                        if which == 'match' else dem, out)
        err = False
    except OSError:
        err = True
    env.check('error', err)
    env.check('nothing written', not os.path.exists(out))


def clip(env, size, px, win, kind='float32', nodata=None):
    """the DEM tile holds the cells of the DEM"""
    am = env.load('all_multipliers')
    h, w = size
    py = px * 0.75
    g = (148.25, px, 0.0, -20.5, 0.0, -py)
    if kind.startswith('int'):
        z = env.iarray('z', size, -100, 4000, dtype=kind)
    else:
        z = env.farray('z', size, -100, 4000, dtype=kind)
    dem = env.raster('dem.img', z, g, dtype=kind, nodata=nodata)
    am.output_folder = env.mkdir('out')
    m = env.fn(am, 'Multipliers')(dem, dem)
    m.open_dem()
    r0, r1, c0, c1 = win
    ext = (g[0] + c0 * px, g[3] - r0 * py, g[0] + c1 * px, g[3] - r1 * py)
    f = m.cut_dem(['e148.25s20.5', ext, ext])
    env.check('in the output folder', os.path.abspath(
        os.path.dirname(f)) == os.path.join(env.tmp, 'out'))
    r = env.read_raster(f)
    env.check('written', r is not None)
    if r is None:
        return
    b = r['bands'][0]
    env.check('size', tuple(b.shape) == (r1 - r0, c1 - c0))
    env.check('georeference', env.And(*[env.close(x, y) for x, y in zip(
        r['gt'], (ext[0], px, 0.0, ext[1], 0.0, -py))]))
    env.check('projection', same_crs(r['proj'], 4326))
    env.check('integers stay', kind != 'int32' or r['dtype'][0].kind == 'i')
    if tuple(b.shape) != (r1 - r0, c1 - c0):
        return
    for i in range(r1 - r0):
        for j in range(c1 - c0):
            v = z[r0 + i, c0 + j]
            x = env.close(b[i, j], v, 4000)
            if nodata is not None:
                x = env.If(v == nodata, b[i, j] == 0, x)
            env.check('elevation of cell (%d, %d)' % (i, j), x)
    env.observe('dem', b)


def tasks(tier):
    q = tier == 'quick'
    B = 'every class and every position of the land cover'
    T = [Task('%s classes, %dx%d on %dx%d' % ((k,) + s + l), landcover,
              dict(size=s, px=p, lsize=l, lpx=lp, kind=k, paths=ps),
              validate=3, bounds=B)
         for k, s, p, l, lp, ps in [
             ('int32', (2, 3), 0.25, (3, 2), 0.25, True),
             ('int32', (2, 2), 0.25, (2, 2), 0.5, False),
             ('int32', (3, 2), 0.5, (3, 3), 0.125, False),
             ('uint8', (2, 2), 0.25, (3, 3), 0.25, False),
             ('int32', (2, 1), 0.25, (2, 2), 0.25, None),
             ('float32', (2, 3), 0.25, (2, 2), 0.375, True)] + (
                 [] if q else [
                     ('int32', (5, 4), 0.25, (4, 4), 0.3125, False),
                     ('int32', (4, 5), 0.5, (6, 5), 0.375, True),
                     ('int16', (3, 4), 0.125, (3, 4), 0.625, False),
                     ('float64', (3, 3), 0.25, (4, 4), 0.25, False)])]
    T += [Task('land cover around the tile', landcover, dict(
        size=(2, 3), px=0.25, lsize=(3, 4), lpx=0.375, inside=True),
        validate=3, bounds=B),
        Task('no data', landcover, dict(size=(2, 2), px=0.25, lsize=(2, 2),
                                        lpx=0.25, nodata=0), validate=3,
             bounds=B),
        Task('other projection', projection, dict(code=None), validate=2),
        Task('given projection', projection, dict(code=4283), validate=1),
        Task('no land cover', missing, dict(which='src')),
        Task('no DEM tile', missing, dict(which='match'))]
    T += [Task('DEM tile of %s' % k, clip, dict(size=s, px=p, win=w, kind=k,
                                               nodata=nd), validate=2,
               bounds='every elevation')
          for k, s, p, w, nd in [
              ('float32', (4, 5), 0.25, (1, 3, 2, 5), None),
              ('int32', (3, 4), 0.1, (0, 3, 0, 2), None),
              ('float64', (4, 3), 0.3, (2, 4, 1, 3), -99.0),
              ('int16', (3, 3), 0.15, (1, 3, 0, 3), None)]]
    return T
