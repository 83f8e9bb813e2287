"""C37: what was computed before in the same process makes no difference."""
import os
import random
import shutil

from sx.sstr import SStr
from sx.runner import Task
from props import c01, c25
from props.c12 import hills
from props.c18 import AnyHills
from props.util import DIRECTIONS, cells, extent, pixel_for

ID = 'C37'
ASSUMPTIONS = ['GDAL and netCDF4 store and return arrays unchanged (float32 '
               'values within 1e-5)', 'a new process is the repository\'s '
               'modules loaded anew']
OUTSIDE = ('other sequences of tiles; state kept by the libraries; what one '
           'process leaves on the disk for another (C29, C30)')
CLASSES = [(3, 2.0, 85), (7, 0.2, 90), (12, 0.005, 60)]


def same(env, label, a, b):
    if isinstance(a, SStr) or isinstance(b, SStr):
        env.check(label, isinstance(a, (str, SStr)) and
                  isinstance(b, (str, SStr)) and a == b)
    elif isinstance(a, dict) and isinstance(b, dict):
        env.check(label + ': the same results', set(a) == set(b))
        for k in a:
            if k in b:
                same(env, '%s %s' % (label, k), a[k], b[k])
    elif hasattr(a, 'shape') and hasattr(b, 'shape') and len(a.shape):
        env.check(label + ': size', tuple(a.shape) == tuple(b.shape))
        if tuple(a.shape) == tuple(b.shape):
            for ix in cells(a.shape):
                env.check('%s: cell %s' % (label, ix),
                          env.nanclose(a[ix], b[ix], 3))
    elif isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        env.check(label + ': number', len(a) == len(b))
        for i, (x, y) in enumerate(zip(a, b)):
            same(env, '%s [%d]' % (label, i), x, y)
    elif isinstance(a, str) or isinstance(b, str) or a is None or b is None:
        env.check(label, type(a) is type(b) and a == b)
    else:
        env.check(label, env.nanclose(a, b, 3))


def compare(env, steps, orders=None):
    """steps: name -> function that returns results"""
    alone = {}
    for k, f in steps.items():
        env.restart()
        alone[k] = f()
        shutil.rmtree(env.mkdir('out'))
    for order in orders or [list(steps), list(steps)[::-1]]:
        env.restart()
        for n, k in enumerate(order):
            same(env, '%s after %s' % (k, ', '.join(order[:n]) or 'nothing'),
                 alone[k], steps[k]())
        shutil.rmtree(env.mkdir('out'))


def files(env, folder, tile, what, var):
    r = {}
    for d in DIRECTIONS:
        x = env.read_nc(os.path.join(folder, '%s_%s_%s.nc' % (tile, what, d)))
        r[d] = x and {k: x['vars'].get(k) for k in (var, 'lat', 'lon')}
    return r


# same shape elsewhere; the same number of cells; other cells
def tiles(rows, cols, metres, others):
    return [('e147s30', rows, cols, metres, -30.0),
            ('e147s31', cols, rows, metres, -30.0),
            ('e147s55', rows, cols, metres, -55.0)] + [
        ('e147s%d' % (40 + k), rows, cols, m, -30.0)
        for k, m in enumerate(others)]


NEAR = tiles(3, 5, 38.0, (62.0, 130.0))         # kernels of 2, 3, 1, 0
FAR = tiles(4, 6, 150.0, (95.0, 260.0))


def wide(t):
    """the cells of all tiles are equally wide in degrees: those in the
    south are smaller in metres"""
    name, rows, cols, metres, lat = t
    px = pixel_for(metres, -30.0)
    return name, rows, cols, px, 147.0, lat + rows * px / 2


def classes(env, t, free):
    name, rows, cols = t[:3]
    r = random.Random(name)
    a = env.const([[r.choice((3, 7, 12, 5)) for _ in range(cols)]
                   for _ in range(rows)], 'int32')
    for n in range(free):
        ix = r.randrange(rows), r.randrange(cols)
        a[ix] = env.int('class %s %s %d' % (name, ix, n), 0, 15)
    return a


def setting(env):
    env.base_config(env.table(CLASSES))
    env.git(True)


def terrain(env, tiles, free):
    data = {t[0]: classes(env, t, free) for t in tiles}
    steps = {}
    for t in tiles:
        def step(t=t):
            setting(env)
            name, rows, cols, px, x0, y0 = wide(t)
            folder = env.mkdir('out', 'terrain')
            lc = env.raster('out/%s.img' % name, data[name],
                            (x0, px, 0.0, y0, 0.0, -px), dtype='int32')
            env.load('terrain.terrain_mult').terrain(
                lc, extent(x0, y0, px, px, 0, 0, cols, rows))
            return files(env, folder, name, 'mz', 'Mz')
        steps[t[0]] = step
    compare(env, steps)


def shield(env, tiles, free):
    data = {t[0]: classes(env, t, free) for t in tiles}
    steps = {}
    for t in tiles:
        def step(t=t):
            setting(env)
            name, rows, cols, px, x0, y0 = wide(t)
            folder = env.mkdir('out', 'shielding')
            gt = (x0, px, 0.0, y0, 0.0, -px)
            lc = env.raster('out/%s.img' % name, data[name], gt,
                            dtype='int32')
            dem = env.raster('out/%s_dem.img' % name, env.const(
                hills(rows, cols, 'a' if rows < cols else 'b'), 'float64'),
                gt, dtype='float64')
            env.load('shielding.shield_mult').shield(
                lc, dem, extent(x0, y0, px, px, 0, 0, cols, rows))
            return files(env, folder, name, 'ms', 'Ms')
        steps[t[0]] = step
    compare(env, steps)


def topographic(env, tiles, free):
    f = AnyHills(env)
    data = {}
    for t in tiles:
        r = random.Random(t[0])
        a = env.const([[float(r.randrange(60)) for _ in range(t[2])]
                       for _ in range(t[1])], 'float64')
        for n in range(free):
            ix = r.randrange(t[1]), r.randrange(t[2])
            a[ix] = env.int('z %s %s %d' % (t[0], ix, n), 0, 499)
        data[t[0]] = a
    steps = {}
    for t in tiles:
        def step(t=t):
            setting(env)
            name, rows, cols, px, x0, y0 = wide(t)
            folder = env.mkdir('out', 'topographic')
            dem = env.raster('out/%s_dem.img' % name, data[name],
                             (x0, px, 0.0, y0, 0.0, -px), dtype='float64')
            tm = env.load('topographic.topo_mult')
            for m in (env.load('topographic.multiplier_calc'), tm):
                if callable(getattr(m, 'multiplier_calc', None)):
                    m.multiplier_calc = f
            tm.topomult(dem, extent(x0, y0, px, px, 0, 0, cols, rows))
            return files(env, folder, name, 'mt', 'Mt')
        steps[t[0]] = step
    compare(env, steps)


def profiles(env, lines, lo, hi):
    """multiplier_calc, line after line; None: unknown elevation"""
    zs = []
    for i, (line, ds) in enumerate(lines):
        z = [env.int('z%d[%d]' % (i, k), lo, hi) if v is None else v
             for k, v in enumerate(line)]
        zs.append((z, ds))
    steps = {}
    for i, (z, ds) in enumerate(zs):
        def step(z=z, ds=ds):
            a = env.const([0.0] * len(z), 'float64')
            for k, v in enumerate(z):
                a[k] = v
            m = env.fn('topographic.multiplier_calc', 'multiplier_calc')(
                a, ds)
            return dict(m=m, line=a)
        steps['line %d' % i] = step
    env.mkdir('out')
    compare(env, steps)


def conversion(env, shapes, missing):
    """tiles with the same name in two runs, and one after the other"""
    from props import c21
    data, steps = {}, {}
    for i, sh in enumerate(shapes):
        for f in c21.FILES:
            for d in c21.ORDER:
                if (i, f, d) not in missing:
                    n = 'm %d %s %s' % (i, f, d)
                    a = env.farray(n, sh, '0.5', 2)
                    a[0, 0] = env.If(env.bool(n + ' none'), -9999.0, a[0, 0])
                    data[i, f, d] = a

    def step(i):
        run = env.mkdir('out', 'run%d' % (i % 2))
        tile = 'e14%d.0s20.0' % (i // 2)
        gt = (140.0 + i // 2 + 0.25 * (i % 2), 0.01, 0.0, -20.0, 0.0, -0.02)
        for x in c21.FILES:
            env.mkdir('out', 'run%d' % (i % 2), x)
        for x in ('M3', 'M3_max'):
            env.mkdir('out', 'run%d' % (i % 2), x)
        for (k, x, d), a in data.items():
            if k == i:
                env.ncgrid('out/run%d/%s/%s_%s_%s.nc' % (
                    i % 2, x, tile, c21.FILES[x].lower(), d), c21.FILES[x],
                    a, gt)
        c = env.fn('utilities.convert', 'Converter')([tile], run)
        names = [[os.path.relpath(n, run) for n in x] for x in c.run()]
        r = dict(names=names)
        for x in ('M3', 'M3_max'):
            b = env.read_raster(os.path.join(run, x, tile + '.tif'))
            r[x] = b and dict(bands=b['bands'], gt=b['gt'],
                              desc=[str(n) for n in b['desc']])
        return r
    for i in range(len(shapes)):
        steps['tile %d' % i] = lambda i=i: step(i)
    compare(env, steps)


def grids(env, boxes):
    """tile grids of several rasters; the size of one is unknown"""
    steps = {}
    for i, (px, py, x0, y0, up, size) in enumerate(boxes):
        w = env.int('columns %d' % i, 1, int(2 / px)) if size is None else \
            size[0]
        h = env.int('rows %d' % i, 1, int(1 / py)) if size is None else \
            size[1]
        p = env.raster('dem%d.img' % i, None, (x0, px, 0.0, y0, 0.0, -py),
                       size=(w, h), dtype='float32')

        def step(up=up, p=p):
            am = env.load('all_multipliers')
            return [list(x[:1]) + [list(y) for y in x[1:]] for x in
                    am.get_tiles(am.TileGrid(up, p))]
        steps['raster %d' % i] = step
    env.mkdir('out')
    compare(env, steps)


def pixel_sizes(env, boxes):
    """directly; the place of one raster is chosen by the solver"""
    steps = {}
    for i, (px, py, x0, y0, rows, cols) in enumerate(boxes):
        if y0 is None:
            y0 = env.choice('latitude %d' % i, [-55.0, -12.0, 30.0])
        p = env.raster('out/r%d.img' % i, env.const(
            [[1.0] * cols] * rows, 'float32'), (x0, px, 0.0, y0, 0.0, -py),
            dtype='float32')
        ds = env.dataset(p)

        def step(ds=ds):
            return list(env.fn('utilities.get_pixel_size_grid',
                               'get_pixel_size_grids')(ds))
        steps['raster %d' % i] = step
    env.mkdir('out')
    compare(env, steps)


def saving(env):
    """files of different kind, direction, configuration"""
    cases = [('out/a/t_mz_n.nc', 'Mz', 'one.img', 2, 3),
             ('out/a/t_mz_se.nc', 'Mz', 'one.img', 2, 3),
             ('out/b/t_ms_n.nc', 'Ms', 'two.img', 2, 3),
             ('out/b/t_mt_n.nc', 'Mt', 'one.img', 3, 2)]
    steps = {}
    for i, (rel, name, dem, r, c) in enumerate(cases):
        v = env.farray('v%d' % i, (r, c), 0, 3)

        def step(rel=rel, name=name, dem=dem, v=v, r=r, c=c, i=i):
            env.base_config(dem_data=dem)
            env.git(True)
            p = env.path(rel)
            env.load('utilities.nctools').save_multiplier(
                name, v, [-20.0 - i - 0.5 * k for k in range(r)],
                [140.0 + i + k for k in range(c)], p)
            x = env.read_nc(p)
            return x and dict(
                vars={k: x['vars'].get(k) for k in (name, 'lat', 'lon')},
                attrs={k: str(a) for k, a in x['attrs'].items()
                       if k != 'Created_on'})
        steps[rel] = step
    compare(env, steps)


def cutting(env, free):
    """one object cuts and matches several tiles"""
    dem = env.const([[float(10 + i * 7 % 5 + j) for j in range(6)]
                     for i in range(5)], 'float32')
    lcv = env.const([[(i * 3 + j * 5) % 9 for j in range(6)]
                     for i in range(5)], 'int32')
    for n, ix in enumerate([(0, 0), (2, 3), (4, 5), (1, 4)][:free]):
        dem[ix] = env.real('z %s' % (ix,), -50, 2000)
        lcv[ix] = env.int('class %s' % (ix,), 0, 99)
    gt = (148.0, 0.5, 0.0, -20.0, 0.0, -0.5)
    pd = env.raster('dem.img', dem, gt, dtype='float32')
    pl = env.raster('lc.img', lcv, gt, dtype='int32')
    steps = {}
    for c0, r0, w, h in ((0, 0, 3, 2), (3, 0, 3, 2), (0, 2, 3, 2),
                         (2, 2, 4, 3), (0, 0, 2, 3)):
        name = 't%d%d%d' % (c0, r0, w)

        def step(name=name, c0=c0, r0=r0, w=w, h=h):
            setting(env)
            am = env.load('all_multipliers')
            out = env.mkdir('out')
            am.output_folder = out
            m = vars(am).get('_sx_m') or am.Multipliers(pl, pd)
            am._sx_m = m
            if not m.dem_ds:
                m.open_dem()
            e = extent(148.0, -20.0, 0.5, 0.5, c0, r0, w, h)
            t = m.cut_dem([name, e, e])
            lc = os.path.join(out, name + '.img')
            am.reproject_dataset(pl, env.dataset(t), lc)
            r = {}
            for k, p in (('dem', t), ('lc', lc)):
                x = env.read_raster(p)
                r[k] = x and dict(band=x['bands'][0], gt=x['gt'])
            return r
        steps[name] = step
    compare(env, steps)


def joining(env):
    steps = {}
    boxes = {}
    for k in ('first', 'second'):
        boxes[k] = (c25.strips(env, k + ' area', 1),
                    c25.strips(env, k + ' settlement', 2, gap=False))
    for k, (a, s) in boxes.items():
        def step(k=k, a=a, s=s):
            sf = env.fn('utilities.shapefiles', 'shp_file')
            x, y = sf(), sf()
            x.geom = [env.boxes([b]) for b in a]
            x.attribute = [{'id': i} for i in range(len(a))]
            y.geom = [env.boxes([b]) for b in s]
            y.attribute = [{'kind': '%s %d' % (k, i)} for i in range(len(s))]
            x.spatial_join(y, 'kind')
            return [dict(id=str(r['id']), kind=r['kind'])
                    for r in x.attribute]
        steps[k] = step
    env.mkdir('out')
    compare(env, steps)


def copies(args):
    return [a.copy() if hasattr(a, 'copy') else a for a in args]


def calls(env, mod, fn, make):
    """one function with several arguments"""
    steps = {}
    for i, args in enumerate(make(env)):
        def step(args=args):
            r = env.fn(mod, fn)(*copies(args))
            if hasattr(r, 'shape') and not len(r.shape) or r is None:
                return r
            return list(r) if isinstance(r, tuple) else r
        steps['call %d' % i] = step
    env.mkdir('out')
    compare(env, steps)


def averaging(env):
    a = env.farray('a', (3, 4), 0, 2)
    b = env.farray('b', (4, 3), 0, 2)
    return [(d, x, w, g) for d in ('n', 'se', 'w')
            for x, w, g in ((a, 2, 0), (a, 1, 1), (b, 2, 0))]


def kernels(env):
    """averages of several sizes, directions and rasters"""
    a = env.farray('a', (3, 5), 0, 1)
    b = env.farray('b', (3, 5), 0, 1)
    steps = {}
    for d in ('n', 'e', 'nw', 'se'):
        for x, n in ((a, 1), (a, 2), (b, 2)):
            def step(d=d, x=x, n=n):
                sm = env.load('shielding.shield_mult')
                return env.fn(sm, 'blur_image')(
                    x.copy(), env.fn(sm, 'kern_' + d)(n))
            steps['%s %d %s' % (d, n, 'ab'[x is b])] = step
    env.mkdir('out')
    compare(env, steps)


def slopes(env):
    steps = {}
    for i, (rows, cols, px, y0, lift) in enumerate([
            (3, 4, 0.001, -20.0, 0), (3, 4, 0.001, -55.0, 0),
            (3, 4, 0.002, -20.0, 300), (4, 3, 0.001, -20.0, 0)]):
        z = env.const(hills(rows, cols, 'a'), 'float64')
        z[1, 1] = env.choice('z%d' % i, [100.0, 150.0]) + lift
        p = env.raster('dem%d.img' % i, z, (148.0, px, 0.0, y0, 0.0, -px),
                       dtype='float64')

        def step(p=p):
            return list(env.fn('shielding.shield_mult', 'get_slope_aspect')(
                p))
        steps['dem %d' % i] = step
    env.mkdir('out')
    compare(env, steps)


def shielded(env):
    out = []
    for d in ('n', 'sw'):
        for k in range(2):
            n = '%s%d' % (d, k)
            out.append((env.farray('f' + n, (1, 2), 0, 1),
                        env.farray('s' + n, (1, 2), 0, 90),
                        env.const([[1, 6]], 'int64'), d))
    return out


def heights(env, lo=-50, hi=300):
    out = []
    for k in range(3):
        y = env.const([0.0] * 3, 'float64')
        for i in range(3):
            y[i] = env.int('y%d[%d]' % (k, i), lo, hi) if k < 2 else 7.0 * i
        out.append((y,))
    return out


def one_hill(env):
    return [(y, 2, 0, ds) for (y,), ds in zip(
        [h for h in heights(env, 0, 60) for _ in range(2)],
        (40.0, 90.0, 40.0, 60.0, 40.0, 90.0))][:4]


def paths(env):
    n = env.int('start', 0, 11)
    return [(r, c, n, d) for d in ('n', 'SE', 'w') for r, c in (
        (3, 4), (4, 3), (2, 6))]


def multipliers(env):
    return [(env.farray('m%d' % k, (2, 2), 1, '1.71'),) for k in range(2)]


def elevations(env):
    return [(env.farray('m%d' % k, (2, 2), 1, '1.71'),
             env.farray('z%d' % k, (2, 2), -50, 3000)) for k in range(2)]


def tables(env, what):
    """tables one after the other, in the configuration of each"""
    data = env.iarray('class', (1, 3), 0, 20)
    gt = (148.0, 0.01, 0.0, -20.0, 0.0, -0.01)
    rows = [[(3, 2.0, 85), (7, 0.2, 90)], [(3, 0.1, 70), (7, 0.2, 90)],
            [(12, 2.0, 85), (7, 0.02, 95)]]
    steps = {}
    for i, t in enumerate(rows):
        def step(i=i, t=t):
            # (env.table writes one file: give each table its own)
            p = env.path('tables%d' % i, 't.csv')
            with open(p, 'w') as f:
                f.write('CATEGORY,DESCRIPTION,ROUGHNESS_LENGTH_m,SHIELDING\n')
                f.writelines('%d,x,%r,%r\n' % r for r in t)
            env.base_config(p)
            out = env.mkdir('out', 'shielding')
            if what == 'terrain':
                tm = env.load('terrain.terrain_mult')
                return env.fn(tm, 'terrain_class2mz_orig')(
                    data.copy(), env.fn(tm, 'get_terrain_table')())
            lc = env.raster('out/t%d.img' % i, data, gt, dtype='int32')
            r = env.read_raster(env.fn(
                'shielding.shield_mult', 'terrain_class2ms_orig')(lc))
            assert out
            return r and dict(band=r['bands'][0], gt=r['gt'])
        steps['table %d' % i] = step
    env.mkdir('out')
    compare(env, steps)


UNIT = {
    'averaging': (calls, dict(mod='terrain.terrain_mult', fn='convo',
                              make=averaging)),
    'kernels': (kernels, {}),
    'slopes': (slopes, {}),
    'slope and aspect': (calls, dict(mod='shielding.shield_mult',
                                     fn='combine', make=shielded)),
    'ridges': (calls, dict(mod='topographic.findpeaks', fn='findpeaks',
                           make=heights)),
    'valleys': (calls, dict(mod='topographic.findpeaks', fn='findvalleys',
                            make=heights)),
    'hills': (calls, dict(mod='topographic.mh', fn='mh_calc',
                          make=one_hill)),
    'paths': (calls, dict(mod='topographic.make_path', fn='make_path',
                          make=paths)),
    'conservatism': (calls, dict(mod='topographic.topo_mult',
                                 fn='remove_conservatism',
                                 make=multipliers)),
    'Tasmania': (calls, dict(mod='topographic.topo_mult', fn='tasmania',
                             make=elevations)),
    'terrain tables': (tables, dict(what='terrain')),
    'shielding tables': (tables, dict(what='shielding'))}
# the sequences that belong to a property as well
SHARED = {'C01': ['tile grids'], 'C02': ['tile grids'],
          'C03': ['cutting and matching'], 'C04': ['tile grids'],
          'C05': ['terrain tables'], 'C06': ['averaging'],
          'C07': ['terrain, 3 tiles', 'terrain, cell sizes'],
          'C08': ['shielding tables'], 'C09': ['kernels'],
          'C10': ['slopes'], 'C11': ['slope and aspect'],
          'C12': ['shielding, 3 tiles', 'shielding, cell sizes'],
          'C13': ['ridges', 'valleys'], 'C14': ['hills'],
          'C15': ['lines of one length', 'lines of different lengths'],
          'C16': ['paths', 'topographic, 3 tiles'],
          'C17': ['conservatism', 'Tasmania'],
          'C18': ['topographic, 3 tiles', 'topographic, cell sizes'],
          'C19': ['cell sizes'], 'C20': ['saving'], 'C21': ['conversion'],
          'C22': ['conversion'], 'C25': ['joining'],
          'C28': ['cutting and matching']}


def shared(prop):
    """tasks that look at a property after other work of the process"""
    return [Task('after other work: ' + t.name, t.fn, t.params,
                 validate=1, bounds=t.bounds)
            for t in tasks('quick') if t.name in SHARED.get(prop, ())]


def tasks(tier):
    q = tier == 'quick'
    n = None
    T = [('terrain, 3 tiles', terrain, dict(tiles=FAR[:3], free=2)),
         ('terrain, cell sizes', terrain, dict(
             tiles=FAR[:1] + FAR[3:], free=2)),
         ('shielding, 3 tiles', shield, dict(tiles=NEAR[:3], free=2)),
         ('shielding, cell sizes', shield, dict(
             tiles=NEAR[:1] + NEAR[3:], free=2)),
         ('topographic, 3 tiles', topographic, dict(
             tiles=NEAR[:3], free=1)),
         ('topographic, cell sizes', topographic, dict(
             tiles=NEAR[:1] + NEAR[3:4], free=1)),
         ('lines of one length', profiles, dict(
             lines=[([0, n, 20, 5], 40.0), ([0, 25, n, 5], 40.0),
                    ([0, 25, 20, 5], 90.0)], lo=0, hi=40)),
         ('lines of different lengths', profiles, dict(
             lines=[([0, n, 20], 40.0), ([0, 30, n, 5, 12], 40.0)],
             lo=0, hi=40)),
         ('conversion', conversion, dict(
             shapes=[(2, 2), (2, 2), (2, 3), (3, 2)],
             missing=[(1, 'terrain', 'e'), (2, 'topographic', 's')])),
         ('tile grids', grids, dict(boxes=[
             (0.5, 0.5, 148.0, -20.0, 0.6, None),
             (0.5, 0.25, 148.0, -20.0, 0.6, (5, 6)),
             (0.5, 0.5, 149.0, -21.0, 0.6, (4, 3)),
             (0.5, 0.5, 148.0, -20.0, 0.1, (4, 3))])),
         ('cell sizes', pixel_sizes, dict(boxes=[
             (0.01, 0.01, 148.0, -20.0, 3, 4),
             (0.01, 0.01, 148.0, n, 3, 4), (0.01, 0.01, 148.0, -20.0, 4, 3),
             (0.02, 0.01, 148.0, -20.0, 3, 4)])),
         ('saving', saving, {}),
         ('cutting and matching', cutting, dict(free=4)),
         ('joining', joining, {})]
    T += [(k,) + v for k, v in UNIT.items()]
    if not q:
        T += [('terrain, all tiles', terrain, dict(tiles=FAR, free=6)),
              ('shielding, all tiles', shield, dict(tiles=NEAR, free=6)),
              ('topographic, all tiles', topographic, dict(
                  tiles=NEAR, free=2))]
    return [Task(a, f, k, validate=1,
                 bounds='the listed sequence and its reverse')
            for a, f, k in T]
