"""C24: distribution and merging of the conversion."""
import os
import sys
import types

from sx.runner import Task
from props.mpi import World
from props.c21 import FILES, ORDER

ID = 'C24'
ASSUMPTIONS = ['collective operations of MPI as documented',
               'gdal.BuildVRT references the files it is given']
OUTSIDE = ('more processes and tiles than stated; tiles without any '
           'shielding output')


def hash_(f):
    """an order without any system"""
    return sum((i * i + 7) * ord(c) for i, c in enumerate(f)) * 7919 % 1009


def convert(env, size, most, dummy=False, sym=True, base='out', script=None):
    mr = env.load('utilities.mpi_runner')
    cv = env.load('utilities.convert')
    run = env.fn(mr, 'parallelise_convert_on_tiles')
    n = env.choice('tiles', list(range(0, most + 1)))
    names = ['e%s.5s2%d.25' % (148 + (3 * k) % 5, k) for k in range(n)]
    vals = []
    env.mkdir(base, 'shielding')
    one = env.const([[1.0, 1.0], [1.0, 1.0]], 'float64')
    for k, t in enumerate(names):
        v = env.real('v%d' % k, 1, 2, py=False) if sym else 1.0 + k / 8.0
        vals.append(v)
        gt = (148 + (3 * k) % 5 + 0.5, 0.5, 0.0, -20.25 - k, 0.0, -0.5)
        a = one.copy()
        a[0, 1] = v
        for f, u in FILES.items():
            env.mkdir(base, f)
            for d in ORDER:
                env.ncgrid('%s/%s/%s_%s_%s.nc' % (base, f, t, u.lower(), d), u,
                           a if f == 'shielding' else one, gt)
    for s in ('M3', 'M3_max'):
        if script is None or env.fix(env.bool('there is a ' + s)):
            env.mkdir(base, s)
    made, vrts, listed = [], [], []
    w = World(env, size)
    me = w.me
    if dummy:
        par = env.load('utilities.parallel')
        comm = env.fn(par, 'attempt_parallel')().COMM_WORLD
    else:
        comm = w.comm
    env.fn(mr.gdal, 'BuildVRT')
    env.fn(cv.gdal, 'Translate')
    old_translate, old_vrt = cv.gdal.Translate, mr.gdal.BuildVRT

    def translate(dst, *a, **k):
        made.append((me(), os.path.abspath(dst)))
        return old_translate(dst, *a, **k)

    def build(dst, srcs, *a, **k):
        vrts.append((me(), os.path.abspath(dst), [
            os.path.abspath(s) for s in srcs], all(
                os.path.exists(s) for s in srcs)))
        return old_vrt(dst, srcs, *a, **k)
    env.patch(cv.gdal, 'Translate', translate)
    env.patch(mr.gdal, 'BuildVRT', build)
    old_list = os.listdir

    def listdir(p='.'):
        """the files in some other order"""
        fs = sorted(old_list(p))
        if os.path.abspath(str(p)).startswith(env.tmp) and len(fs) > 1:
            k = env.choice('order %d' % len(listed), [0, 1, 2, 3])
            listed.append(p)
            fs.sort(key=[lambda f: f, lambda f: f[::-1], lambda f: [
                -ord(c) for c in f], lambda f: (hash_(f), f)][k])
        return fs
    env.patch(os, 'listdir', listdir)
    if script is None:
        w.run(lambda rank: run(env.path(base), comm))
    else:
        if not dummy:
            m = types.ModuleType('mpi4py')
            m.MPI = w.mpi
            env.provide('mpi4py', m)
        env.patch(sys, 'argv', ['mpi_runner.py', script, env.path(base)])
        env.patch(sys, 'path', list(sys.path))
        import atexit
        env.patch(atexit, 'register', lambda f, *a, **k: f)
        w.run(lambda rank: env.main('utilities.mpi_runner'))
    env.patch(os, 'listdir', old_list)
    w.ok()
    for s in ('M3', 'M3_max'):
        want = sorted(env.path(base, s, t + '.tif') for t in names)
        got = sorted(p for _, p in made if os.path.dirname(p) ==
                     env.path(base, s))
        env.check('%s: every tile converted once' % s, got == want)
        mine = [v for v in vrts if os.path.dirname(v[1]) ==
                env.path(base, s)]
        env.check('%s: one virtual raster, by the master' % s,
                  n == 0 and not mine or len(mine) == 1 and mine[0][0] == 0 and mine[0][1] ==
                  env.path(base, s, 'wind-multipliers.vrt'))
        for v in mine:
            env.check('%s: references all files once' % s,
                      sorted(v[2]) == want)
            env.check('%s: files were there' % s, v[3])
        for t, x in zip(names, vals):
            r = env.read_raster(env.path(base, s, t + '.tif'))
            env.check('%s: %s holds its own values' % (s, t),
                      r is not None and env.And(*[env.close(
                          b[0, 1], x, 2) for b in r['bands']]))
    env.check('nothing else converted', len(made) == 2 * n and
              len(vrts) == 2 * (n > 0))
    by = {}
    for r, p in made:
        by.setdefault(os.path.basename(p), set()).add(r)
    env.check('a tile by one process', all(len(x) == 1 for x in by.values()))
    env.check('processes exist', all(0 <= r < size for r, _ in made))


def tasks(tier):
    q = tier == 'quick'
    T = [Task('serial', convert, dict(size=1, most=2, dummy=True),
              validate=2),
         Task('serial, another directory', convert,
              dict(size=1, most=2, dummy=True, base='M3/e_M3_max.tif/x_ms_n.nc'),
              validate=2)]
    T += [Task('script, serial', convert, dict(
        size=1, most=2, dummy=True, script='-p'), validate=2),
        Task('script, 3 processes', convert, dict(
            size=3, most=3, script='--path'), validate=2)]
    for s, m in [(1, 2), (2, 3), (3, 2), (4, 5)] + (
            [] if q else [(2, 6), (3, 7), (5, 6), (7, 3)]):
        T.append(Task('%d processes' % s if q else
                      '%d processes, %d tiles' % (s, m), convert,
                      dict(size=s, most=m),
                      validate=1, bounds='0..%d tiles, every listing order '
                      'out of four, every value' % m))
    return T
