"""C39: tiles computed at the same time do not disturb one another."""
import math
import os
import random
import shutil

from sx.runner import Task
from props import c21, c37
from props.c12 import hills
from props.c18 import AnyHills
from props.procs import Procs
from props.util import extent

ID = 'C39'
ASSUMPTIONS = ['one operation on a file (open, create, resample, write, '
               'list, remove) is one step', 'GDAL and netCDF4 store and '
               'return arrays unchanged (float32 values within 1e-5)',
               'topographic multipliers of a line replaced by values the '
               'solver chooses (C15)']
OUTSIDE = ('more than two processes; more than two changes between them; '
           'operations of the libraries cut in two; file systems shared '
           'between machines')
NAMES = ('e114.25s21.7', 'e114.25s21.75')    # one begins like the other


def left(d):
    return sorted(os.path.relpath(os.path.join(p, f), d)
                  for p, _, fs in os.walk(d) for f in fs)


KNOWN = {}


def compare(env, prepare, process, read, first, stops=1, limit=70,
            once=None):
    """two processes; the first stops before one of its operations; with
    stops=2 so does the second, and the first ends before it.  read(k): the
    files of tile k; once: what is computed alone is the same on every path"""
    ps = Procs(env)
    fs = [lambda k=k: process(k) for k in range(2)]
    alone, change, count = KNOWN.get((env.sym, once), ([], [], []))
    for k, f in enumerate(fs[len(alone):]):
        prepare()
        before = set(left(env.path('out')))
        count.append(ps.alone(f))
        now = set(left(env.path('out')))
        alone.append(read(k))
        change.append((now - before, before - now))
        shutil.rmtree(env.mkdir('out'))
    if once is not None:
        KNOWN[env.sym, once] = alone, change, count
    prepare()
    want = set(left(env.path('out')))
    want = (want | change[0][0] | change[1][0]) - change[0][1] - change[1][1]
    a = first

    def stop(name, n):
        v = env.int(name, 0, limit)
        env.assume(v <= n)
        return int(v)
    sched = [(a, stop('operations of the first', count[a]))]
    if stops > 1:
        sched += [(1 - a, stop('operations of the second', count[1 - a])),
                  (a, None)]
    sched += [(1 - a, None), (a, None)]
    for p in ps.together(fs, sched):
        if p.error is not None:
            raise p.error
    for k in range(2):
        c37.same(env, 'tile %d' % k, alone[k], read(k))
    env.check('the files each leaves when alone',
              want == set(left(env.path('out'))))
    shutil.rmtree(env.mkdir('out'))


PX = 0.00125


def box(k, rows, cols, buf):
    """georeference of the raster of tile k, its extent without buffer"""
    x0 = 147.0 + k * cols * PX - buf * PX
    gt = (x0, PX, 0.0, -30.0 + buf * PX, 0.0, -PX)
    return gt, extent(x0, gt[3], PX, PX, buf, buf, cols, rows)


def inputs(env, rows, cols, buf, free, heights=False):
    h, w = rows + 2 * buf, cols + 2 * buf
    out = []
    for k in range(2):
        r = random.Random(k)
        lc = env.const([[r.choice((3, 7, 12, 5)) for _ in range(w)]
                        for _ in range(h)], 'int32')
        for n in range(free):
            ix = r.randrange(h), r.randrange(w)
            lc[ix] = env.int('class %d %s %d' % (k, ix, n), 0, 15)
        z = hills(h, w, 'ab'[k])
        z = env.const(z, 'float64')
        if heights:
            ix = r.randrange(h), r.randrange(w)
            z[ix] = env.int('z %d %s' % (k, ix), 0, 499)
        out.append((lc, z))
    return out


def some_hills(env):
    """cheaper than AnyHills: a value that depends on line and spacing"""
    def f(line, data_spacing):
        m = env.const([[1.0]] * len(line), 'float64')
        for k in range(len(line)):
            m[k, 0] = 1 + 0.7 * abs(math.sin(
                1 + k + sum((i + 2) * float(x) for i, x in enumerate(line)) +
                float(data_spacing)))
        return m
    return f


def stub_hills(env, f):
    tm = env.load('topographic.topo_mult')
    for m in (env.load('topographic.multiplier_calc'), tm):
        if callable(getattr(m, 'multiplier_calc', None)):
            m.multiplier_calc = f


WHAT = dict(terrain=('mz', 'Mz'), shielding=('ms', 'Ms'),
            topographic=('mt', 'Mt'))


def results(env, name, which):
    return {d: c37.files(env, env.path('out', d), name, *WHAT[d])
            for d in which}


def stage(env, which, rows, cols, buf, free, first, stops=1, names=NAMES):
    data = inputs(env, rows, cols, buf, free, which == 'topographic')
    f = AnyHills(env)

    def prepare():
        for d in WHAT:
            env.mkdir('out', d)
        for k, nm in enumerate(names):
            gt = box(k, rows, cols, buf)[0]
            env.raster('out/%s.img' % nm, data[k][0], gt, dtype='int32')
            env.raster('out/%s_dem.img' % nm, data[k][1], gt,
                       dtype='float64')

    def process(k):
        ex = box(k, rows, cols, buf)[1]
        lc = env.path('out', names[k] + '.img')
        dem = env.path('out', names[k] + '_dem.img')
        c37.setting(env)
        if which == 'terrain':
            g = env.load('terrain.terrain_mult').terrain
            return lambda: g(lc, ex)
        if which == 'shielding':
            s = env.load('shielding.shield_mult').shield
            return lambda: s(lc, dem, ex)
        stub_hills(env, f)
        t = env.load('topographic.topo_mult').topomult
        return lambda: t(dem, ex)
    compare(env, prepare, process, lambda k: results(env, names[k], [which]),
            first, stops)


def whole(env, rows, cols, buf, free, roles, first, stops=1, names=NAMES):
    """each cuts the DEM and computes; or the first cuts the DEM of its tile
    (as the master does) while the second, whose DEM is cut, computes"""
    h, w = rows + 2 * buf, 2 * cols + 2 * buf
    r = random.Random(3)
    lcv = env.const([[r.choice((3, 7, 12, 5)) for _ in range(w)]
                     for _ in range(h)], 'int32')
    for n in range(free):
        ix = r.randrange(h), r.randrange(w)
        lcv[ix] = env.int('class %s %d' % (ix, n), 0, 15)
    z = env.const(hills(h, w, 'a'), 'float32')
    gt = (147.0 - buf * PX, PX, 0.0, -30.0 + buf * PX, 0.0, -PX)
    f = some_hills(env)
    tiles = []
    for k in range(2):
        g, ex = box(k, rows, cols, buf)
        tiles.append([names[k], (g[0], g[3], g[0] + (cols + 2 * buf) * PX,
                                 g[3] - h * PX), ex])

    def multipliers():
        c37.setting(env)
        am = env.load('all_multipliers')
        am.output_folder = env.mkdir('out')
        stub_hills(env, f)
        m = am.Multipliers(env.path('in/lc.img'), env.path('in/dem.img'))
        return m

    def prepare():
        for d in WHAT:
            env.mkdir('out', d)
        env.raster('in/dem.img', z, gt, dtype='float32')
        env.raster('in/lc.img', lcv, gt, dtype='int32')
        for k in range(2):
            if roles[k] == 'work':
                m = multipliers()
                m.open_dem()
                m.cut_dem(list(tiles[k]))
        env.restart()

    def process(k):
        m = multipliers()
        ready = env.path('out', names[k] + '_dem.img')

        def f():
            dem = ready
            if roles[k] != 'work':
                m.open_dem()
                dem = m.cut_dem(list(tiles[k]))
            if roles[k] != 'cut':
                m.multipliers_calculate(dem, list(tiles[k]))
        return f

    def read(k):
        if roles[k] == 'cut':
            x = env.read_raster(env.path('out', names[k] + '_dem.img'))
            return x and dict(band=x['bands'][0], gt=x['gt'])
        return results(env, names[k], WHAT)
    compare(env, prepare, process, read, first, stops,
            once=None if free else (roles, names))


def conversion(env, shape, first, stops=1, missing=()):
    names = NAMES
    data = {}
    for k in range(2):
        for f in c21.FILES:
            for d in c21.ORDER:
                if (k, f, d) not in missing:
                    n = 'm %d %s %s' % (k, f, d)
                    a = env.farray(n, shape, '0.5', 2)
                    a[0, 0] = env.If(env.bool(n + ' none'), -9999.0, a[0, 0])
                    data[k, f, d] = a

    def prepare():
        for x in list(c21.FILES) + ['M3', 'M3_max']:
            env.mkdir('out', x)
        for (k, x, d), a in data.items():
            env.ncgrid('out/%s/%s_%s_%s.nc' % (
                x, names[k], c21.FILES[x].lower(), d), c21.FILES[x], a,
                (140.0 + k, 0.01, 0.0, -20.0, 0.0, -0.02))

    def process(k):
        c = env.fn('utilities.convert', 'Converter')([names[k]],
                                                     env.path('out'))
        return c.run

    def read(k):
        r = {}
        for x in ('M3', 'M3_max'):
            b = env.read_raster(env.path('out', x, names[k] + '.tif'))
            r[x] = b and dict(bands=b['bands'], gt=b['gt'],
                              desc=[str(n) for n in b['desc']])
        return r
    compare(env, prepare, process, read, first, stops)


def tasks(tier):
    q = tier == 'quick'
    B = 'every operation at which one stops while the other goes on'
    K = dict(validate=2, bounds=B)
    T = []
    for f in (0, 1):
        n = ', tile %d first' % f
        T += [Task('conversion' + n, conversion, dict(
            shape=(1, 2), first=f, missing=[(f, 'terrain', 'e')]), **K)]
        T += [Task(w + n, stage, dict(
            which=w, rows=r, cols=2, buf=1, free=1, first=f), **K)
            for w, r in (('topographic', 1), ('shielding', 2),
                         ('terrain', 2))]
        T += [Task('whole tiles, %s and %s%s' % (r + (n,)), whole, dict(
            rows=1, cols=2, buf=1, free=0, roles=r, first=f), **K)
            for r in (('all', 'all'), ('cut', 'work'))]
        if not q:
            B2 = B + ', twice'
            K2 = dict(K, bounds=B2)
            T += [Task('%s, twice%s' % (w, n), stage, dict(
                which=w, rows=1, cols=1, buf=1, free=0, first=f, stops=2),
                **K2) for w in ('topographic', 'shielding', 'terrain')]
            T += [Task('conversion, twice' + n, conversion, dict(
                shape=(1, 1), first=f, stops=2), **K2)]
    return T
