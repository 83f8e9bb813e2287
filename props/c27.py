"""C27: tile results do not depend on where the tile boundaries fall."""
import os

from sx.runner import Task
from props.util import DIRECTIONS, cell_size, cells, extent, whole

ID = 'C27'
ASSUMPTIONS = ['GDAL and netCDF4 store and return arrays unchanged (float32 '
               'values within 1e-5)',
               'the mean cell size of both windows gives the same averaging '
               'distance in cells',
               'elevations concrete; topographic calculation left out (it '
               'looks along whole lines by design)']
OUTSIDE = ('tiles whose mean cell sizes round to different averaging '
           'distances; buffers shorter than the averaging distance; unknown '
           'classes further from the border than stated')
ROWS = [(3, 2.0, 85), (7, 0.2, 90), (12, 0.005, 60), (9, 0.1, 0)]


def seam(env, px, py, lat, nr, nc, up, free, nodata=None, hilly=False,
         what='terrain', dtype='int32', tiles=2, base=(0, 1, 2, 3)):
    """the raster as one window and as the tiles of TileGrid"""
    am = env.load('all_multipliers')
    stage, folder, ab, var = dict(
        terrain=('terrain.terrain_mult.terrain', 'terrain', 'mz', 'Mz'),
        shield=('shielding.shield_mult.shield', 'shielding', 'ms', 'Ms'))[
        what]
    env.base_config(env.table(ROWS))
    env.git(True)
    x0, y0 = 147.0, lat
    gt = (x0, px, 0.0, y0, 0.0, -py)
    data = env.const([[ROWS[base[(i + 2 * j) % len(base)]][0]
                       for j in range(nc)] for i in range(nr)], dtype)
    for r, c in free:
        data[r, c] = env.int('class[%d,%d]' % (r, c), -1, 15)
    if nodata:
        for r, c in nodata:
            data[r, c] = 0
    z = [[(30.0 + ((5 * i + 3 * j) % 7) * (40 if hilly else 0))
          for j in range(nc)] for i in range(nr)]
    lc = env.raster('in/lc.img', data, gt, dtype=dtype)
    dem = env.raster('in/dem.img', env.const(z, 'float32'), gt,
                     dtype='float32')
    # the averaging distance is the same in both, and the buffer covers it
    ys = sorted({y0, y0 - nr * py, y0 - min(nr * py, 1.1)})
    for a in ys:
        for b in ys:
            w, h = [0.5 * sum(v) for v in zip(cell_size(px, py, a),
                                              cell_size(px, py, b))]
            g = (w + h) / 2
            if what == 'terrain':
                k = (whole(500 / g, 'round'), whole(200 / g, 'round'),
                     whole(500 / g / 1.414, 'floor'),
                     whole(200 / g / 1.414, 'floor'))
                reach = max(k[0] + k[1], k[2] + k[3])
            else:
                k = (whole(100 / g, 'floor'),)
                reach = k[0]
            assert a == b == ys[0] or k == known, (k, known)
            known = k
    reach = max(reach, 1)
    bx, by = int(up / px), int(up / py)
    mod = env.load(stage.rsplit('.', 1)[0])
    run = env.fn(mod, what)

    def compute(d, lcv, demf, ext):
        env.mkdir(d, folder)
        run(*([lcv] if what == 'terrain' else [lcv, demf]), ext)
    one = env.mkdir('one')
    gl = env.raster('one/all.img', data, gt, dtype=dtype)
    gd = env.raster('one/all_dem.img', env.const(z, 'float32'), gt,
                    dtype='float32')
    compute('one', gl, gd, extent(x0, y0, px, py, 0, 0, nc, nr))
    # the tiles
    am.output_folder = out = env.mkdir('out')
    for f in ('terrain', 'shielding', 'topographic'):
        env.mkdir('out', f)
    for m, f in (('terrain.terrain_mult', 'terrain'),
                 ('shielding.shield_mult', 'shield'),
                 ('topographic.topo_mult', 'topomult')):
        if f == what:
            continue
        mo = env.load(m)
        old = env.fn(mo, f)
        env.patch(mo, f, lambda *a, **k: None)
        for k, v in list(vars(am).items()):
            if v is old:
                env.patch(am, k, vars(mo)[f])
    grid = env.fn(am, 'TileGrid')(up, dem)
    ts = [list(t) for t in env.fn(am, 'get_tiles')(grid)]
    env.check('tiles', len(ts) == tiles)
    m = env.fn(am, 'Multipliers')(lc, dem)
    m.open_dem()
    for t in ts:
        m.multipliers_calculate(m.cut_dem(t), t)
    near = set()
    for t in ts:
        e = t[2]
        c0 = int(round((e[0] - x0) / px))
        c1 = int(round((e[2] - x0) / px))
        r0 = int(round((y0 - e[1]) / py))
        r1 = int(round((y0 - e[3]) / py))
        assert bx >= reach or (c0 == 0 and c1 == nc)
        assert by >= reach or (r0 == 0 and r1 == nr)
        for d in DIRECTIONS:
            a = env.read_nc(os.path.join(one, folder, 'all_%s_%s.nc' % (
                ab, d)))
            b = env.read_nc(os.path.join(out, folder, '%s_%s_%s.nc' % (
                t[0], ab, d)))
            n = '%s of tile %d' % (d, ts.index(t))
            ok = a is not None and b is not None and tuple(
                b['vars'][var].shape) == (r1 - r0, c1 - c0) and tuple(
                a['vars'][var].shape) == (nr, nc)
            env.check(n + ': saved on its cells', ok)
            if not ok:
                continue
            a, b = a['vars'][var], b['vars'][var]
            for i, j in free:
                for r in range(i - reach - 1, i + reach + 2):
                    for c in range(j - reach - 1, j + reach + 2):
                        near.add((r, c))
            for r, c in sorted(near):
                if r0 <= r < r1 and c0 <= c < c1:
                    env.check('%s: cell (%d, %d)' % (n, r, c), env.nanclose(
                        b[r - r0, c - c0], a[r, c], 4))
            rest = [(r, c) for r, c in cells((nr, nc)) if (r, c) not in near
                    and r0 <= r < r1 and c0 <= c < c1]
            env.check('%s: cells far from the border' % n, env.And(
                *[env.nanclose(b[r - r0, c - c0], a[r, c], 4)
                  for r, c in rest]) if rest else True)


def tasks(tier):
    def block(r0, r1, c0, c1):
        return [(r, c) for r in range(r0, r1) for c in range(c0, c1)]
    C = []
    # 50 columns of 0.02 degrees far south make a tile: 193 m x 112 m
    e = dict(px=0.02, py=0.001, lat=-85.0, nr=5, nc=57, up=0.13)
    C.append(('terrain, west and east of a border', dict(
        e, what='terrain', free=block(0, 5, 46, 54),
        nodata=((1, 49), (3, 51)))))
    for b in (0, 1, 3), (2,):
        C.append(('terrain, a few cells, %s around' % (
            'rough' if 0 in b else 'smooth'), dict(
                e, what='terrain', free=[(2, 43), (2, 50), (2, 56)],
                nodata=((1, 48), (3, 51)), base=b)))
    # 81 m cells
    e = dict(px=0.01, py=0.0006, lat=-85.0, nr=4, nc=106, up=0.1)
    C.append(('shielding, west and east of a border', dict(
        e, what='shield', free=block(0, 4, 97, 103), hilly=True)))
    # 200 rows of 0.005 degrees: 39 m x 558 m and narrower
    e = dict(px=0.02, py=0.005, lat=-88.4, nr=204, up=0.06, what='terrain')
    C.append(('terrain, north and south of a border', dict(
        e, nc=5, free=block(196, 204, 0, 5), nodata=((199, 2), (201, 0)))))
    e = dict(px=0.02, py=0.0011, lat=-88.85, nc=4, nr=914, up=0.021)
    C.append(('shielding, north and south of a border', dict(
        e, what='shield', free=block(907, 913, 0, 4))))
    if tier == 'thorough':
        e = dict(px=0.02, py=0.005, lat=-88.4, nr=204, up=0.06,
                 what='terrain')
        C.append(('terrain, corner of four tiles', dict(
            e, nc=53, free=block(198, 202, 48, 52), tiles=4)))
        e = dict(px=0.02, py=0.001, lat=-85.0, nr=7, nc=108, up=0.13)
        C.append(('terrain, narrow tile between two others', dict(
            e, what='terrain', free=block(0, 7, 94, 106), tiles=3)))
        e = dict(px=0.01, py=0.0003, lat=-86.0, nr=6, nc=108, up=0.1)
        C.append(('shielding, 56 m', dict(
            e, what='shield', free=block(0, 6, 96, 104), hilly=True)))
    return [Task(n, seam, k, bounds='every class -1..15 of %d cells' % len(
        k['free']), validate=1) for n, k in C]
