"""C35: paths given relative to the working directory."""
import os
import sys

from sx.runner import Task
from props.fs import tree
from props.util import DIRECTIONS, cells

ID = 'C35'
ASSUMPTIONS = ['GDAL and netCDF4 resolve relative paths against the working '
               'directory']
OUTSIDE = ('more tiles; working directories that are links; several '
           'processes started in different directories')
ROWS = [(3, 2.0, 85), (7, 0.2, 90), (12, 0.005, 60)]
PARTS = (('terrain', 'mz', 'Mz'), ('shielding', 'ms', 'Ms'),
         ('topographic', 'mt', 'Mt'))
OUT = ['out', 'results/new', '../elsewhere/out', './out', 'out/',
       'run [1] a_b.c', '../else_where/x.nc/out*']


def compute(env, how, am, dem, lcv, table, out, extra):
    """-> names of the tiles"""
    if how == 'run':
        conf = env.base_config(
            table, dict(Output=dict(output_dir=out)), False,
            upwind_length='0.25',
            terrain_data=lcv, dem_data=dem)
        rel = not os.path.isabs(dem)
        env.patch(sys, 'argv', ['all_multipliers.py', '-c', os.path.relpath(
            conf) if rel else conf])
        env.fn(am, 'run')()
    else:
        env.base_config(table)
        for f in ('terrain', 'shielding', 'topographic'):
            os.makedirs(os.path.join(out, f))
        env.load('utilities.parallel')
        mpi = env.fn(am, 'attempt_parallel')()
        am.MPI, am.comm = mpi, mpi.COMM_WORLD
        am.output_folder = out
        m = env.fn(am, 'Multipliers')(lcv, dem)
        grid = env.fn(am, 'TileGrid')(0.25, dem)
        m.parallelise_on_tiles([list(t) for t in env.fn(
            am, 'get_tiles')(grid)])
    grid = env.fn(am, 'TileGrid')(0.25, dem)
    return [t[0] for t in env.fn(am, 'get_tiles')(grid)]


def relative(env, how, ncols, nrows, free, px=0.25):
    am = env.load('all_multipliers')
    env.git(True)
    lat, lon = -20.0, 147.0
    gt = (lon, px, 0.0, lat, 0.0, -px)
    data = env.const([[ROWS[(i + 2 * j) % 3][0] for j in range(ncols)]
                      for i in range(nrows)], 'int32')
    for r, c in free:
        data[r, c] = env.int('class[%d,%d]' % (r, c), 0, 15)
    z = env.const([[30.0 + (5 * i + 3 * j) % 7 for j in range(ncols)]
                   for i in range(nrows)], 'float32')
    dem = env.raster('in/dem.img', z, gt, dtype='float32')
    lcv = env.raster('in/lc.img', data, gt, dtype='int32')
    table = env.table(ROWS)
    import atexit
    env.patch(atexit, 'register', lambda f, *a, **k: f)
    # a script starts with its own directory only
    env.patch(sys, 'path', [p for p in sys.path if os.path.dirname(
        os.path.realpath(p)) != os.path.dirname(os.path.realpath(
            am.__file__))])
    env.patch(am, 'fl_start_log', lambda *a, **k: None)
    one = os.path.join(env.mkdir('abs'), 'out')
    names = compute(env, how, am, dem, lcv, table, one, ())
    # the same, from another directory
    work = env.mkdir('work')
    with open(env.path('work', 'keep.xml'), 'w') as f:
        f.write('keep')
    env.mkdir('elsewhere')
    env.mkdir('else_where', 'x.nc')
    out = env.choice('output directory', OUT)
    if how != 'run':
        env.mkdir('work', os.path.dirname(out))
    os.chdir(work)
    two = os.path.abspath(out)
    rel = os.path.relpath
    before = tree(env.tmp)
    same = compute(env, how, am, rel(dem), rel(lcv), rel(table), out, ())
    env.check('the working directory is kept', os.getcwd() == work)
    os.chdir(work)
    env.check('the same tiles', same == names)
    top = rel(two, env.tmp)
    known = {top}
    while os.path.dirname(top):
        top = os.path.dirname(top)
        known.add(top)
    after = tree(env.tmp)
    top = rel(two, env.tmp) + os.sep
    env.check('nothing else is touched', {
        p: t for p, t in after.items()
        if not p.startswith(top) and p not in known and
        not p.startswith('conf')} == {
        p: t for p, t in before.items() if p not in known and
        not p.startswith('conf')})
    a, b = [sorted(p for p, t in tree(d).items()) for d in (one, two)]
    env.check('the same files', a == b)
    for f, ab, var in PARTS:
        for n in names:
            for d in DIRECTIONS:
                x, y = [env.read_nc(os.path.join(q, f, '%s_%s_%s.nc' % (
                    n, ab, d))) for q in (one, two)]
                lab = '%s %s of tile %d' % (ab, d, names.index(n))
                ok = x is not None and y is not None and tuple(
                    x['vars'][var].shape) == tuple(y['vars'][var].shape)
                env.check(lab + ': saved', ok)
                if ok:
                    x, y = x['vars'][var], y['vars'][var]
                    env.check(lab + ': the same values', env.And(
                        *[env.nanclose(y[ix], x[ix], 2)
                          for ix in cells(tuple(x.shape))]))
    if how == 'run':
        for s in ('M3', 'M3_max'):
            for n in names:
                x, y = [env.read_raster(os.path.join(q, s, n + '.tif'))
                        for q in (one, two)]
                ok = x is not None and y is not None and \
                    len(x['bands']) == len(y['bands'])
                env.check('%s of tile %s: converted' % (s, n), ok)
                if ok:
                    env.check('%s of tile %s: the same' % (s, n), env.And(
                        *[env.nanclose(v[ix], u[ix], 2)
                          for u, v in zip(x['bands'], y['bands'])
                          for ix in cells(tuple(u.shape))]))


def tasks(tier):
    T = [('tiles', 4, 2, [(0, 1), (1, 3)]), ('tiles', 6, 2, [(1, 4)]),
         ('run', 5, 2, [(0, 1), (1, 4)])]
    if tier == 'thorough':
        T += [('tiles', 6, 5, [(0, 1), (4, 4), (3, 2)]),
              ('run', 6, 5, [(0, 1), (4, 4), (3, 2)])]
    return [Task('%s, %d x %d cells' % t[:3], relative, dict(
        zip(('how', 'ncols', 'nrows', 'free'), t)), validate=2,
        bounds='every class 0..15 of %d cells, output directories %s' % (
            len(t[3]), ', '.join(OUT))) for t in T]
