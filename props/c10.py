"""C10: slope and aspect of a DEM in true ground distances."""
import math

from sx.runner import Task
from props.util import cell_size, cells

ID = 'C10'
ASSUMPTIONS = ['arctan/arctan2 known at the sector borders and at the listed '
               'slopes, monotone in between',
               'cell sizes by the latitude of the row (C19)']
OUTSIDE = ('larger rasters; aspect of exactly flat cells and within 0.02 '
           'degrees of a sector border; slopes are compared with the listed '
           'angles only')
ANGLES = [1, 3.27, 5, 12.3, 20, 30, 45, 60, 80]


def gradient(env, z, rows, cols, r, c, gx, gy):
    """3x3 weighted differences, edge cells repeated"""
    def at(i, j):
        return z[min(max(i, 0), rows - 1), min(max(j, 0), cols - 1)]
    e = n = 0
    for k, w in ((-1, 1), (0, 2), (1, 1)):
        e = e + w * (at(r + k, c + 1) - at(r + k, c - 1))
        n = n + w * (at(r - 1, c + k) - at(r + 1, c + k))
    return e / (8.0 * gx), n / (8.0 * gy)


def cross(deg, e, n):
    """> 0 if the bearing of (e, n) lies clockwise of deg (within 180)"""
    a = math.radians(deg)
    return e * round(math.cos(a), 9) - n * round(math.sin(a), 9)


def dem(env, rows, cols, px, py, lat, free, base, dtype, nodata, aspect,
        angles=ANGLES, hi=2000):
    sm = env.load('shielding.shield_mult')
    y0 = lat + rows * py / 2
    data = env.const([[float(base[i][j]) for j in range(cols)]
                      for i in range(rows)], 'float64')
    for r, c in free:
        n = 'z[%d,%d]' % (r, c)
        data[r, c] = env.int(n, -100, hi) if dtype == 'int32' else \
            env.real(n, -100, hi)
    p = env.raster('dem.img', data.astype(dtype),
                   (150.0, px, 0.0, y0, 0.0, -py), dtype=dtype,
                   nodata=nodata)
    slope, asp = env.fn(sm, 'get_slope_aspect')(p)
    env.check('shapes', tuple(slope.shape) == (rows, cols) and
              tuple(asp.shape) == (rows, cols))
    obs = []
    for r, c in cells((rows, cols)):
        if nodata is not None:
            env.check('no slope without data', env.Implies(
                data[r, c] == nodata, env.isnan(slope[r, c])))
            near = [data[i, j] == nodata
                    for i in range(max(r - 1, 0), min(r + 2, rows))
                    for j in range(max(c - 1, 0), min(c + 2, cols))]
            bad = env.Or(*near)
        else:
            bad = False
        gx, gy = cell_size(px, py, y0 - (r + 0.5) * py)
        e, n = gradient(env, data, rows, cols, r, c, gx, gy)
        g2 = e * e + n * n
        s = slope[r, c]
        flat = env.And(e == 0, n == 0)
        if aspect:
            for k in range(8):
                b = 45.0 * k
                # downhill is (-e, -n)
                lo = cross(b - 22.48, -e, -n) > 0
                hi = cross(b + 22.48, -e, -n) < 0
                env.check('aspect class %d of cell (%d, %d)' % (k + 1, r, c),
                          env.Or(bad, flat, env.Implies(
                              env.And(lo, hi), asp[r, c] == k + 1)))
        else:
            env.check('slope of flat ground',
                      env.Or(bad, env.Implies(flat, env.And(
                          s >= -1e-9, s <= 1e-9))))
            for a in angles:
                t2 = math.tan(math.radians(a)) ** 2
                env.check('slope against %g degrees' % a, env.Or(bad, env.And(
                    env.Implies(g2 > t2 * 1.0002, s > a * 0.99999),
                    env.Implies(g2 < t2 * 0.9998, s < a * 1.00001))))
        obs.append(asp[r, c])
    if aspect and nodata is None:
        env.observe('aspect', asp if all(
            True for _ in obs) and not free else len(obs))


def sectors(env):
    """every aspect angle, classified"""
    sm = env.load('shielding.shield_mult')
    a = env.farray('aspect', (2, 2), 0, 360)
    out = env.fn(sm, 'reclassify_aspect')(a)
    for ix in cells((2, 2)):
        for k in range(8):
            lo, hi = 45.0 * k - 22.5, 45.0 * k + 22.5
            cond = env.And(a[ix] >= lo, a[ix] < hi)
            if k == 0:
                cond = env.Or(cond, a[ix] >= 337.5)
            env.check('sector %d' % (k + 1),
                      env.Implies(cond, out[ix] == k + 1))
    env.observe('out', out)


def tasks(tier):
    b3 = [[10, 12, 9], [11, 10, 14], [13, 8, 10]]
    b4 = [[10, 12, 9, 30], [11, 10, 14, 21], [13, 8, 10, 2], [5, 7, 1, 0]]
    near = [(0, 0), (0, 1), (0, 2), (1, 0), (1, 2), (2, 0), (2, 1), (2, 2)]
    out = [Task('every aspect angle', sectors, bounds='0..360 degrees')]
    conf = [('25 m', 0.00025, 0.00025, -33.0), ('wide', 0.002, 0.0005, 10.0),
            ('tall', 0.0005, 0.0015, -60.0)]
    free = [[(0, 0), (1, 2)], [(0, 2), (1, 0)], [(0, 1), (2, 2)],
            [(2, 0), (2, 1)], [(1, 1), (0, 1)]]
    for i, (nm, px, py, lat) in enumerate(conf):
        out.append(Task('aspect, 3x3, %s' % nm, dem, dict(
            rows=3, cols=3, px=px, py=py, lat=lat, free=near + [(1, 1)],
            base=b3, dtype='float64', nodata=None, aspect=True),
            bounds='every elevation -100..2000 m of 9 cells'))
        for fr in (free if tier == 'thorough' else free[i:i + 1]):
            out.append(Task('slope, 3x3, %s, free %s' % (nm, fr), dem, dict(
                rows=3, cols=3, px=px, py=py, lat=lat, free=fr, base=b3,
                dtype='float64', nodata=None, aspect=False,
                angles=ANGLES if tier == 'thorough' else [3.27, 12.3, 45]),
                bounds='every elevation -100..2000 m of the free cells'))
    for fr in free + [[(1, 2), (2, 2)]]:
        # along one axis at a time everything is linear in one elevation
        out.append(Task('slope, 3x3, 25 m, free %s' % fr[:1], dem, dict(
            rows=3, cols=3, px=0.00025, py=0.00035, lat=-33.0, free=fr[:1],
            base=b3, dtype='float64', nodata=None, aspect=False),
            bounds='every elevation -100..2000 m of the free cell'))
    out.append(Task('aspect, 4x4 integer', dem, dict(
        rows=4, cols=4, px=0.001, py=0.001, lat=-20.0,
        free=[(0, 0), (1, 1), (2, 2), (1, 2), (3, 0)], base=b4,
        dtype='int32', nodata=None, aspect=True)))
    out.append(Task('no data', dem, dict(
        rows=3, cols=4, px=0.001, py=0.001, lat=-20.0,
        free=[(1, 1), (0, 3)], base=b4, dtype='int32', nodata=7,
        aspect=False, angles=[])))
    # rows whose cells differ in width by more than the rounding
    out.append(Task('aspect, 3x3, degrees apart', dem, dict(
        rows=3, cols=3, px=0.5, py=0.75, lat=-40.0, free=near + [(1, 1)],
        base=b3, dtype='float64', nodata=None, aspect=True),
        bounds='every elevation -100..2000 m of 9 cells'))
    out.append(Task('slope, 3x3, degrees apart', dem, dict(
        rows=3, cols=3, px=0.5, py=0.75, lat=-40.0, free=[(1, 2)],
        base=[[0.0, 20000.0, 40000.0]] * 3, dtype='float64', nodata=None,
        aspect=False, angles=[12.3, 20, 30], hi=80000),
        bounds='every elevation -100..80000 m of a cell'))
    out.append(Task('no data, one row', dem, dict(
        rows=1, cols=4, px=0.001, py=0.001, lat=-20.0,
        free=[(0, 1), (0, 3)], base=b4, dtype='int32', nodata=7,
        aspect=False, angles=[])))
    out.append(Task('no data, one column', dem, dict(
        rows=4, cols=1, px=0.001, py=0.001, lat=-20.0,
        free=[(1, 0), (3, 0)], base=b4, dtype='float64', nodata=0,
        aspect=False, angles=[])))
    for t in out:
        t.split = 0     # curved in the elevations: left to the solvers
    return out
