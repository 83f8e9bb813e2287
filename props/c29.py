"""C29: a whole run: directory, tiles, conversion."""
import os
import sys
import types

from sx.runner import Task
from props.c21 import FILES, ORDER
from props.fs import Watch
from props.mpi import World
from props.tiles import STAGES, near, stub_stages

ID = 'C29'
ASSUMPTIONS = ['messages are buffered by MPI and do not overtake each other '
               'between two processes',
               'terrain, shielding and topographic calculation replaced by a '
               'record of the call that writes constant results']
OUTSIDE = 'more processes and tiles than stated; processes that die'
FOLDER = {'terrain': 'terrain', 'shield': 'shielding',
          'topomult': 'topographic'}
UNIT = {f: u for f, u in FILES.items()}


def whole(env, size, ncols, nrows, px=0.25, up='0.25', dummy=False,
          empties=True, old=True, orders=3, cover=False):
    x0, y0 = 148.0, -20.0
    am = env.load('all_multipliers')
    gt = (x0, px, 0.0, y0, 0.0, -px)
    per = int(round(1 / px))
    nt = -(-ncols // per)
    empty = [env.fix(env.bool('tile column %d is empty' % k))
             if empties else False for k in range(nt)]
    z = [[0.0 if empty[c // per] else float(20 + r + c) for c in range(ncols)]
         for r in range(nrows)]
    dem = env.raster('in/dem.img', env.const(z, 'float32'), gt,
                     dtype='float32')
    # land cover on the grid of the DEM, on half of it, or coarser and wider
    lx, ly, lw, lh, lpx = env.choice('land cover', [
        (0, 0, ncols, nrows, px), (0, 0, max(1, ncols // 2), nrows, px),
        (-1, 1, ncols // 2 + 4, nrows // 2 + 4, 2 * px)]) if cover else (
            0, 0, ncols, nrows, px)
    lx, ly = x0 + lx * px, y0 + ly * px
    lcv = env.raster('in/lc.img', env.const([[7] * lw] * lh, 'int32'),
                     (lx, lpx, 0.0, ly, 0.0, -lpx), dtype='int32')

    def covered(r, c):
        x, y = x0 + (c + 0.5) * px, y0 - (r + 0.5) * px
        return lx < x < lx + lw * lpx and ly - lh * lpx < y < ly
    out = os.path.join(env.tmp, 'res', 'out')
    if old and env.fix(env.bool('an old run')):
        for f in ('terrain/e1_mz_n.nc', 'shielding/e1_ms_n.nc',
                  'M3/e1.tif', 'x'):
            p = env.path('res/out', f)
            with open(p, 'w') as fd:
                fd.write('old')
    with open(env.path('res', 'keep'), 'w') as fd:
        fd.write('keep')
    conf = env.config({
        'inputValues': dict(root=env.tmp, upwind_length=up,
                            terrain_data=lcv, dem_data=dem,
                            terrain_table='none.csv'),
        'Output': dict(output_dir=out),
        'Logging': dict(LogFile=os.path.join(env.tmp, 'log', 'm.log'),
                        LogLevel='INFO', Verbose='False')}, choose=False)
    env.patch(sys, 'argv', ['all_multipliers.py', '-c', conf])
    # a script starts with its own directory only
    env.patch(sys, 'path', [p for p in sys.path if os.path.dirname(
        os.path.realpath(p)) != os.path.dirname(os.path.realpath(
            am.__file__))])
    import atexit
    env.patch(atexit, 'register', lambda f, *a, **k: f)
    w = World(env, size, orders=orders)
    if not dummy:
        m = types.ModuleType('mpi4py')
        m.MPI = w.mpi
        env.provide('mpi4py', m)
    env.patch(am, 'fl_start_log', lambda *a, **k: logs.append((w.me(), a)))
    logs, seen, made, vrts = [], [], [], []
    cv = env.load('utilities.convert')
    mr = env.load('utilities.mpi_runner')
    tg = env.fn(am, 'TileGrid')(float(up), dem)
    tiles = [list(t) for t in env.fn(am, 'get_tiles')(tg)]
    env.check('tiles', len(tiles) == nt * -(-nrows // per))
    state, layers = [], []
    val = {t[0]: 1.0 + k / 16.0 for k, t in enumerate(tiles)}

    def rasters_of(stage, ps, t):
        """terrain reads the land cover, topomult the DEM, shield both"""
        want = dict(terrain=['l'], shield=['l', 'd'], topomult=['d'])[stage]
        if len(ps) != len(want):
            return False
        c0 = int(round((t[1][0] - x0) / px))
        r0 = int(round((y0 - t[1][1]) / px))
        for p, k in zip(ps, want):
            r = env.read_raster(p)
            if r is None:
                return False
            a = r['bands'][0]
            if not all(float(a[i, j]) == (7 if k == 'l' else
                                          z[r0 + i][c0 + j])
                       or k == 'l' and not covered(r0 + i, c0 + j)
                       for i in range(a.shape[0])
                       for j in range(a.shape[1])):
                return False
        return True

    def act(stage, ps, ex):
        d = FOLDER[stage]
        e = ex[0]
        t = [t for t in tiles if near(t[2], e)]
        state.append(all(os.path.isdir(os.path.join(out, f)) for f in (
            'terrain', 'shielding', 'topographic', 'M3', 'M3_max')) and
            not os.path.exists(os.path.join(out, 'x')))
        layers.append(not t or rasters_of(stage, ps, t[0]))
        if not t:
            return
        nx = int(round((e[2] - e[0]) / px))
        ny = int(round((e[1] - e[3]) / px))
        a = env.const([[val[t[0][0]] if d == 'shielding' else 1.0] * nx] *
                      ny, 'float64')
        u = UNIT[d]
        for k in ORDER:
            env.ncgrid('res/out/%s/%s_%s_%s.nc' % (
                d, t[0][0], u.lower(), k), u, a,
                (e[0], px, 0.0, e[1], 0.0, -px))
    stub_stages(env, am, seen, w.me, act=act)
    old_tr, old_vrt = cv.gdal.Translate, mr.gdal.BuildVRT

    def translate(dst, *a, **k):
        made.append(os.path.abspath(dst))
        return old_tr(dst, *a, **k)

    def build(dst, srcs, *a, **k):
        vrts.append((w.me(), os.path.abspath(dst), sorted(
            os.path.abspath(s) for s in srcs)))
        return old_vrt(dst, srcs, *a, **k)
    env.patch(cv.gdal, 'Translate', translate)
    env.patch(mr.gdal, 'BuildVRT', build)
    watch = Watch(env, w.me)
    run = env.fn(am, 'run')
    w.run(lambda r: run())
    w.ok()
    kill = [(r, p) for r, k, p in watch.log if k == 'delete' and
            os.path.isdir(p)]
    env.check('directories are deleted by the master only',
              all(r == 0 for r, _ in kill))
    inside = os.path.realpath(out)
    env.check('nothing outside the output directory is deleted', all(
        p == inside or p.startswith(inside + os.sep)
        for _, k, p in watch.log if k != 'create'))
    env.check('other files are kept', os.path.exists(
        os.path.join(env.tmp, 'res', 'keep')) and os.path.exists(dem) and
        os.path.exists(lcv))
    env.check('the directory is ready before anything is computed',
              all(state))
    env.check('each calculation reads its own layers', all(layers))
    ind = int(float(up) / px)
    done = []
    for k, t in enumerate(tiles):
        c0 = int(round((t[2][0] - x0) / px))
        c1 = int(round((t[2][2] - x0) / px))
        a, b = max(0, c0 - ind), min(ncols, c1 + ind)
        data = any(not empty[c // per] for c in range(a, b))
        done += [t] if data else []
        for _, st in STAGES:
            mine = [s for s in seen if s['stage'] == st and
                    s['extent'] is not None and near(s['extent'], t[2])]
            env.check('%s of tile %d' % (st, k), len(mine) == int(data))
            for s in mine:
                env.check('%s of tile %d has its rasters' % (st, k), all(
                    i is not None and near(
                        (i['gt'][0], i['gt'][3],
                         i['gt'][0] + i['w'] * i['gt'][1],
                         i['gt'][3] + i['h'] * i['gt'][5]), t[1])
                    for i in s['info']))
                env.check('%s of tile %d: paths in the output directory' % (
                    st, k), all(os.path.dirname(os.path.realpath(p)) ==
                                inside for p in s['paths']))
    env.check('nothing else computed', len(seen) == 3 * len(done))
    for s in ('M3', 'M3_max'):
        want = sorted(os.path.join(out, s, t[0] + '.tif') for t in done)
        env.check(s + ': all converted', sorted(
            p for p in made if os.path.dirname(p) ==
            os.path.join(out, s)) == want)
        v = [v for v in vrts if os.path.dirname(v[1]) ==
             os.path.join(out, s)]
        env.check(s + ': one virtual raster of all, by the master',
                  v == [] if not done else len(v) == 1 and
                  v[0][0] == 0 and v[0][2] == want)
        for t in done:
            r = env.read_raster(os.path.join(out, s, t[0] + '.tif'))
            env.check('%s: tile %s' % (s, t[0]), r is not None and env.And(
                *[env.close(b[0, 0], val[t[0]], 2) for b in r['bands']]))
    env.check('only results are left', sorted(
        f for f in os.listdir(out)
        if not os.path.isdir(os.path.join(out, f))) == [])
    names = [str(a[0]) for _, a in logs if a]
    env.check('a log file for each process', not names or
              len(names) == size == len(set(names)))


def tasks(tier):
    q = tier == 'quick'
    T = [Task('serial, no MPI', whole, dict(size=1, ncols=7, nrows=3,
                                            dummy=True), validate=1),
         Task('1 process', whole, dict(size=1, ncols=6, nrows=6,
                                       empties=False, cover=True),
              validate=1),
         Task('serial, other land cover', whole, dict(
             size=1, ncols=5, nrows=9, dummy=True, empties=False, old=False,
             cover=True), validate=3),
         Task('2 processes', whole, dict(size=2, ncols=11, nrows=2),
              validate=1, bounds='the order in which processes start, up to the second barrier'),
         Task('3 processes, 2 tiles', whole, dict(size=3, ncols=6, nrows=3,
                                                  empties=False, orders=4),
              validate=1, bounds='the order in which processes start, up to the second barrier'),
         Task('3 processes, 1 tile', whole, dict(size=3, ncols=4, nrows=3,
                                                 old=False, orders=4), validate=1)]
    if not q:
        T += [Task('3 processes, 4 tiles', whole, dict(
            size=3, ncols=14, nrows=2, empties=False, old=False),
            validate=1),
            Task('4 processes, 2 tiles', whole, dict(
                size=4, ncols=6, nrows=3, empties=False, old=False),
                validate=1),
            Task('2 processes, 6 tiles', whole, dict(
                size=2, ncols=11, nrows=6, empties=False), validate=1)]
    return T
