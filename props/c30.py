"""C30: the life cycle of a tile."""
import os

from sx.runner import Task
from props.tiles import (PX, STAGES, X0, Y0, leftovers, make_tiles, near,
                         stub_stages)

ID = 'C30'
ASSUMPTIONS = ['terrain, shielding and topographic calculation replaced by a '
               'record of the call (they write a file of the tile)',
               'elevations are 0 or at least 0.5 m from 0',
               'GDAL\'s checksum as it is computed']
OUTSIDE = 'calculations that fail half way; more tiles than stated'


def snapshot(d):
    out = {}
    for p, _, fs in os.walk(d):
        for f in fs:
            q = os.path.join(p, f)
            with open(q, 'rb') as fd:
                out[os.path.relpath(q, d)] = fd.read()
        out[os.path.relpath(p, d) + '/'] = None
    return out


def bystanders(env):
    """files of other tiles, and those of another process at work"""
    for f in ('terrain/e150.0s20.0_mz_n.nc', 'shielding/e150.0s20.0_ms_n.nc',
              'e149.5s21.0.img', 'e149.5s21.0_dem.img', 'notes.txt',
              'topographic/e149.5s21.0_mt_n.nc'):
        with open(env.path('out', f), 'w') as fd:
            fd.write('file ' + f)


def elevations(env, shape, kind):
    if 'int' in kind:
        lo, hi = dict(uint8=(0, 255), uint16=(0, 65535), int16=(
            -32768, 32767)).get(kind, (-200, 3000))
        return env.iarray('z', shape, lo, hi, dtype=kind)
    z = env.farray('z', shape, -200, 3000, dtype=kind)
    for v in z.reshape(-1):
        env.assume(env.Or(v == 0, v >= 0.5, v <= -0.5))
    return z


OLD = 40
# a land-cover class that fills the type
CLASS = dict(uint8=255, uint32=70000, int16=-9999, uint16=40000)
# for each path: does it hold elevations (or land cover)
READS = dict(terrain=[False], shield=[False, True], topomult=[True])


def life(env, n, w=2, h=1, buf=1, kind='float32', fixed=None, order=False,
         serial=True, old=False, lc='int32'):
    am = env.load('all_multipliers')
    z = elevations(env, (h, n * w), kind) if fixed is None else env.const(
        fixed, kind)
    gt = (X0, PX, 0.0, Y0, 0.0, -PX)
    dem = env.raster('in/dem.img', z, gt, dtype=kind)
    lcv = env.raster('in/lc.img', env.const([[CLASS.get(lc, 1)] * (n * w)] * h, lc),
                     gt, dtype=lc)
    am.output_folder = env.mkdir('out')
    bystanders(env)
    before = snapshot(env.path('out'))
    seen, held = [], []
    tiles = make_tiles(n, w, buf, h)
    for k, t in enumerate(tiles if old else ()):
        # what an interrupted run left behind
        c = range(max(0, k * w - buf), min(n * w, (k + 1) * w + buf))
        g = (t[1][0], PX, 0.0, Y0, 0.0, -PX)
        for f, v, ty in (('.img', OLD, 'int32'), ('_dem.img', 9.0, kind)):
            if env.fix(env.bool('%d%s of an earlier run' % (k, f))):
                env.raster('out/' + t[0] + f, env.const(
                    [[v for _ in c]] * h, ty), g, dtype=ty)

    def act(stage, ps, ex):
        """each calculation leaves a result"""
        for p, dem_like in zip(ps, READS[stage]):
            r = env.read_raster(p)
            held.append((stage, ex[0], dem_like,
                         r and r['bands'][0].copy()))
        name = 'e%ss20.0' % ex[0][0]
        d = {'terrain': 'terrain', 'shield': 'shielding',
             'topomult': 'topographic'}[stage]
        with open(env.path('out', d, '%s_%s' % (name, stage)), 'w') as f:
            f.write(stage)
    stub_stages(env, am, seen, act=act)
    todo = list(range(n))
    if order and n > 1 and env.fix(env.bool('backwards')):
        todo.reverse()
    m = env.fn(am, 'Multipliers')(lcv, dem)
    if serial:
        env.load('utilities.parallel')
        mpi = am.attempt_parallel()
        am.MPI, am.comm = mpi, mpi.COMM_WORLD
        m.parallelise_on_tiles([list(tiles[k]) for k in todo])
    else:
        m.open_dem()
        for k in todo:
            m.multipliers_calculate(m.cut_dem(list(tiles[k])),
                                    list(tiles[k]))
    full = []
    for k in range(n):
        a, b = max(0, k * w - buf), min(n * w, (k + 1) * w + buf)
        full.append(env.fix(env.Or(*[z[r, c] != 0 for r in range(h)
                                     for c in range(a, b)])))
    made = []
    for k in range(n):
        mine = [s for s in seen if s['extent'] is not None and
                near(s['extent'], tiles[k][2])]
        what = sorted(s['stage'] for s in mine)
        if full[k]:
            env.check('tile %d gets all three, once' % k, what == sorted(
                f for _, f in STAGES))
            made += ['terrain/%s_terrain' % tiles[k][0],
                     'shielding/%s_shield' % tiles[k][0],
                     'topographic/%s_topomult' % tiles[k][0]]
        else:
            env.check('empty tile %d computes nothing' % k, what == [])
        for s in mine:
            env.check('rasters of tile %d are there' % k,
                      s['info'] and all(i is not None for i in s['info']))
            for i in s['info']:
                if i is not None:
                    g = i['gt']
                    env.check('extent of the rasters of tile %d' % k, near(
                        (g[0], g[3], g[0] + i['w'] * g[1],
                         g[3] + i['h'] * g[5]), tiles[k][1]))
    env.check('nothing else computed', len(seen) == 3 * sum(full))
    for stage, ex, dem_like, b in held:
        k = [k for k in range(n) if near(tiles[k][2], ex)]
        if b is None or len(k) != 1:
            env.check('its rasters can be read', False)
            continue
        k = max(0, k[0] * w - buf)
        if not dem_like:
            env.check('%s: land cover' % stage, env.And(*[
                v == CLASS.get(lc, 1) for v in b.reshape(-1)]))
        else:
            env.check('%s: elevations' % stage, env.And(*[
                env.close(b[r, c], z[r, k + c], 3000)
                for r in range(b.shape[0]) for c in range(b.shape[1])]))
    after = snapshot(env.path('out'))
    env.check('other files are untouched', all(
        after.get(f, 0) == v for f, v in before.items()))
    left = sorted(f for f in after if f not in before and f[-1] != '/')
    # what is left of an earlier run at an empty tile is nobody's business
    left = [f for f in left if f not in [
        tiles[k][0] + '.img' for k in range(n) if old and not full[k]]]
    env.check('results only, nothing else left', left == sorted(made))
    env.check('inputs are still there', os.path.exists(dem) and
              os.path.exists(lcv))


def interleaved(env, names):
    """one process computes a tile while another is in one of the stages of
    its own"""
    am = env.load('all_multipliers')
    n, w, h = 2, 2, 2
    z = [[float(1 + r + c) for c in range(n * w)] for r in range(h)]
    gt = (X0, PX, 0.0, Y0, 0.0, -PX)
    dem = env.raster('in/dem.img', env.const(z, 'float32'), gt,
                     dtype='float32')
    lcv = env.raster('in/lc.img', env.const([[1] * (n * w)] * h, 'int32'),
                     gt, dtype='int32')
    am.output_folder = env.mkdir('out')
    tiles = make_tiles(n, w, 1, h)
    for t, nm in zip(tiles, names):
        t[0] = nm
    seen, inner = [], []
    at = int(env.int('stage', 0, 2))
    first = int(env.int('first', 0, 1))
    early = env.fix(env.bool('DEM tiles cut before'))
    ms = [env.fn(am, 'Multipliers')(lcv, dem) for _ in range(2)]
    cuts = {}

    def cut(k):
        if k not in cuts:
            ms[k].open_dem()
            cuts[k] = ms[k].cut_dem(list(tiles[k]))
        return cuts[k]

    def act(stage, ps, ex):
        if not inner and len(seen) == at:
            inner.append(1)
            k = 1 - first
            ms[k].multipliers_calculate(cut(k), list(tiles[k]))
    stub_stages(env, am, seen, act=act)
    if early:
        cut(0), cut(1)
    ms[first].multipliers_calculate(cut(first), list(tiles[first]))
    for s in seen:
        t = [t for t in tiles if near(t[2], s['extent'] or ())]
        env.check('a tile', len(t) == 1)
        for i in s['info'] if t else ():
            env.check('its own rasters', i is not None and near(
                (i['gt'][0], i['gt'][3], i['gt'][0] + i['w'] * i['gt'][1],
                 i['gt'][3] + i['h'] * i['gt'][5]), t[0][1]))
    env.check('all computed', len(seen) == 6)
    env.check('nothing left', leftovers(env, 'out') == [])


def missing(env, what, broken):
    """an input that is missing, or is not a raster"""
    am = env.load('all_multipliers')
    n = int(env.int('tiles', 1, 3))
    gt = (X0, PX, 0.0, Y0, 0.0, -PX)
    a = [[1] * (2 * n)]
    dem = env.raster('in/dem.img', env.const(a, 'float32'), gt,
                     dtype='float32')
    lcv = env.raster('in/lc.img', env.const(a, 'int32'), gt, dtype='int32')
    bad = env.path('in', 'nothing.img')
    if broken:
        with open(bad, 'w') as f:
            f.write('not a raster')
    if what == 'dem':
        dem = bad
    else:
        lcv = bad
    am.output_folder = env.mkdir('out')
    bystanders(env)
    before = snapshot(env.path('out'))
    seen = []
    stub_stages(env, am, seen)
    mpi = am.attempt_parallel()
    am.MPI, am.comm = mpi, mpi.COMM_WORLD
    m = env.fn(am, 'Multipliers')(lcv, dem)
    try:
        m.parallelise_on_tiles([list(t) for t in make_tiles(n, h=1)])
        err = False
    except (OSError, RuntimeError):
        err = True
    env.check('reported', err)
    env.check('nothing computed', seen == [])
    after = snapshot(env.path('out'))
    env.check('other files are untouched', all(
        after.get(f, 0) == v for f, v in before.items()))


def no_tile(env):
    """a worker whose DEM tile is not there"""
    am = env.load('all_multipliers')
    _, lcv = None, env.raster('in/lc.img', env.const([[1, 1]], 'int32'),
                              (X0, PX, 0.0, Y0, 0.0, -PX), dtype='int32')
    am.output_folder = env.mkdir('out')
    seen = []
    stub_stages(env, am, seen)
    k = int(env.int('tile', 0, 2))
    try:
        env.fn(am, 'Multipliers')(lcv, lcv).multipliers_calculate(
            env.path('out', 'x%d_dem.img' % k), make_tiles(3)[k])
        err = False
    except OSError:
        err = True
    env.check('reported', err)
    env.check('nothing computed', seen == [])


def tasks(tier):
    q = tier == 'quick'
    B = 'every elevation'
    T = [Task('%d tiles of %dx%d, buffer %d%s, %s' % (
        n, h, w, b, ', either order' if o else '', k), life,
        dict(n=n, w=w, h=h, buf=b, order=o, kind=k, serial=s), validate=2,
        bounds=B)
        for n, w, h, b, o, k, s in [
            (1, 2, 2, 0, False, 'float32', True),
            (1, 3, 4, 0, False, 'int32', False),
            (2, 2, 1, 1, True, 'float32', True),
            (3, 2, 1, 0, True, 'float64', False),
            (3, 3, 2, 1, False, 'int32', True)] + ([] if q else [
                (5, 2, 2, 1, True, 'float32', True),
                (4, 3, 3, 1, True, 'int32', False),
                (1, 8, 8, 0, False, 'float32', True)])]
    T += [Task('a DEM of %s, land cover of %s' % (k, lc), life,
               dict(n=n, w=2, h=1, buf=b, kind=k, serial=s, lc=lc),
               validate=2, bounds='every elevation of the type')
          for n, b, k, lc, s in [
              (1, 0, 'uint8', 'uint8', True), (2, 1, 'int16', 'int16', False),
              (1, 0, 'uint16', 'uint16', False),
              (2, 1, 'float32', 'float64', True)] + ([] if q else [
                  (3, 1, 'uint16', 'int16', True),
                  (2, 0, 'float64', 'uint32', True)])]
    T += [Task('%d tiles of %dx%d after an interrupted run' % (n, h, w),
               life, dict(n=n, w=w, h=h, buf=b, serial=s, old=True),
               validate=2, bounds=B)
          for n, w, h, b, s in [(1, 2, 2, 0, True), (2, 2, 1, 1, False)]]
    T += [Task('two processes at work', interleaved, dict(names=nm))
          for nm in (('e148.0s20.0', 'e148.5s20.0'),)]
    T += [Task('two processes, %s and %s' % nm, interleaved, dict(names=nm))
          for nm in (('e148.0s20.0', 'e148.0s19.0'),
                     ('e114.25s21.7', 'e114.25s21.75'))]
    T += [Task('a missing DEM', missing, dict(what='dem', broken=False)),
          Task('a missing land cover', missing, dict(what='lcv',
                                                     broken=False)),
          Task('a broken land cover', missing, dict(what='lcv',
                                                    broken=True)),
          Task('a broken DEM', missing, dict(what='dem', broken=True)),
          Task('a missing DEM tile', no_tile)]
    return T
