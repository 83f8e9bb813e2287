"""C21: the combined multiplier of a tile."""
from sx.runner import Task
from props.util import cells

ID = 'C21'
ASSUMPTIONS = ['GDAL stores bands, names, nodata values and georeference as '
               'it is told to, and reads nan in a netCDF file as no data']
OUTSIDE = ('larger tiles (cells are independent); a missing shielding file '
           'of the north, which defines the size of the tile; tiles one cell '
           'wide or high, whose georeference GDAL can not read from netCDF')
ORDER = ['e', 'n', 'ne', 'nw', 's', 'se', 'sw', 'w']
FILES = {'shielding': 'Ms', 'terrain': 'Mz', 'topographic': 'Mt'}
TILE = 'e148.25s21.3333'
GT = (148.25, 0.01, 0.0, -21.3333, 0.0, -0.02)


def layers(env, tile, shape, gt, missing=(), nodata=True):
    """write the files of a tile -> {(folder, direction): array or None}"""
    v = {}
    for f, u in FILES.items():
        for d in ORDER:
            env.mkdir('out', f)
            if (f, d) in missing:
                v[f, d] = None
                continue
            n = '%s_%s_%s' % (u, d, tile)
            a = env.farray(n, shape, '0.3', 3)
            for ix in cells(shape) if nodata else ():
                a[ix] = env.If(env.bool('%s none%s' % (n, ix)), -9999.0,
                               a[ix])
            v[f, d] = a
            env.ncgrid('out/%s/%s_%s_%s.nc' % (f, tile, u.lower(), d), u, a,
                       gt)
    return v


def expected(env, v, d, ix):
    """(product, no data there)"""
    p, gone = 1.0, False
    for f in FILES:
        if v[f, d] is not None:
            p = p * v[f, d][ix]
            gone = env.Or(gone, v[f, d][ix] == -9999)
    return p, gone


def georef(env, label, r, gt):
    env.check(label + ': georeference', len(r['gt']) == 6 and env.And(
        *[env.close(a, b, '0.01') for a, b in zip(r['gt'], gt)]))
    env.check(label + ': projection', 'WGS 84' in r['proj'] and
              'GEOGCS' in r['proj'])


def check_tile(env, label, p, v, shape, gt):
    r = env.read_raster(p)
    env.check(label + ': file', r is not None)
    if r is None:
        return
    env.check(label + ': bands', len(r['bands']) == 8 and
              [str(x) for x in r['desc']] == ORDER)
    georef(env, label, r, gt)
    for d, b, nd in zip(ORDER, r['bands'], r['nodata']):
        env.check('%s %s: nodata value' % (label, d), nd == -9999)
        if tuple(b.shape) != tuple(shape):
            env.check('%s %s: size' % (label, d), False)
            continue
        for ix in cells(shape):
            want, gone = expected(env, v, d, ix)
            env.check('%s %s: cell %s' % (label, d, ix), env.If(
                gone, b[ix] == -9999, env.close(b[ix], want, 27)))
    return r


def product(env, shape, missing=None, tiles=1):
    cv = env.load('utilities.convert')
    env.fn(cv, 'Converter')
    if missing in FILES:
        d = env.choice('dir', [x for x in ORDER if (missing, x) !=
                               ('shielding', 'n')])
        gone = {(missing, d)}
    elif missing == 'two of a direction':
        d = env.choice('dir', ORDER)
        gone = {('terrain', d), ('topographic', d)}
    elif missing == 'all of a direction':
        d = env.choice('dir', [x for x in ORDER if x != 'n'])
        gone = {(f, d) for f in FILES}
    elif missing:
        gone = {(f, d) for d in ORDER for f in missing.split()[1:]}
    else:
        gone = set()
    names, vs, shapes, gts = [], [], [], []
    for k in range(tiles):
        names.append(TILE if k == 0 else 'e149.0s2%d.5' % k)
        shapes.append(shape if k == 0 else (shape[1], shape[0] + k))
        gts.append(GT if k == 0 else (149.0, 0.01, 0.0, -20.5 - k, 0.0,
                                      -0.01))
        vs.append(layers(env, names[k], shapes[k], gts[k],
                         gone if k == 0 else (), nodata=k == 0))
    env.mkdir('out', 'M3')
    env.mkdir('out', 'M3_max')
    c = cv.Converter(list(names), env.path('out'))
    if tiles == 1:
        c.process_tile(TILE)
    else:
        r = c.run()
        import os
        for part, sub in zip(r, ('M3', 'M3_max')):
            env.check('result files ' + sub, [os.path.abspath(x) for x in part]
                      == [env.path('out', sub, n + '.tif') for n in names])
    for n, v, s, g in zip(names, vs, shapes, gts):
        check_tile(env, n, env.path('out', 'M3', n + '.tif'), v, s, g)


def saved(env, shape):
    """the product of files that save_multiplier has written"""
    cv = env.load('utilities.convert')
    nct = env.load('utilities.nctools')
    env.base_config()
    env.git(True)
    v = {}
    lon, lat = nct.get_lat_lon(
        (GT[0], GT[3], GT[0] + shape[1] * GT[1], GT[3] + shape[0] * GT[5]),
        GT[1], -GT[5])
    for f, u in FILES.items():
        for d in ORDER:
            a = env.farray('%s_%s' % (u, d), shape, '0.3', 3, nan=True)
            v[f, d] = a.copy()
            nct.save_multiplier(u, a, lat, lon, os_join(env, f, u, d))
    env.mkdir('out', 'M3')
    cv.Converter([TILE], env.path('out')).process_tile(TILE)
    w = {}
    for k, a in v.items():
        b = a.copy()
        for ix in cells(shape):
            b[ix] = env.If(env.isnan(a[ix]), -9999.0, a[ix])
        w[k] = b
    check_tile(env, TILE, env.path('out', 'M3', TILE + '.tif'), w, shape, GT)


def os_join(env, f, u, d):
    import os
    return os.path.join(env.mkdir('out', f), '%s_%s_%s.nc' % (
        TILE, u.lower(), d))


def tasks(tier):
    big = (3, 2) if tier == 'quick' else (4, 5)
    b = 'every value 0.3..3 or no data in each cell and file'
    T = [Task('product %dx%d' % s, product, dict(shape=s), bounds=b,
              validate=2) for s in ((2, 2), (2, 3), big)]
    T += [Task('missing: ' + m, product, dict(shape=(3, 2) if tier != 'quick'
                                   else (2, 2), missing=m),
               bounds=b + ', every choice of the missing files', validate=2)
          for m in ('shielding', 'terrain', 'topographic', 'two of a direction',
                    'all of a direction', 'all terrain', 'all topographic',
                    'all terrain topographic')]
    T += [Task('missing %s, %dx%d' % ((m,) + s), product,
               dict(shape=s, missing=m), bounds=b) for m, s in (
                   ('shielding', (3, 2)), ('terrain', (2, 3)),
                   ('topographic', (3, 2)), ('two of a direction', (2, 3)),
                   ('all of a direction', (3, 2)))]
    T += [Task('two tiles', product, dict(shape=(2, 3), tiles=2,
                                          missing='all terrain'), bounds=b),
          Task('saved files', saved, dict(shape=(2, 2)), bounds=b,
               validate=2)]
    return T
