"""Small tiles with the three calculations replaced by a record of them."""
import inspect
import os

STAGES = (('terrain.terrain_mult', 'terrain'),
          ('shielding.shield_mult', 'shield'),
          ('topographic.topo_mult', 'topomult'))
PX = 0.25
X0, Y0 = 148.0, -20.0


def make_tiles(n, w=2, buf=1, h=3):
    """n tiles of w columns in a row with a buffer of buf columns ->
    [name, buffered extent, extent]"""
    out = []
    for k in range(n):
        a, b = k * w, (k + 1) * w
        c, d = max(0, a - buf), min(n * w, b + buf)
        out.append(['e%ss20.0' % (X0 + a * PX),
                    (X0 + c * PX, Y0, X0 + d * PX, Y0 - h * PX),
                    (X0 + a * PX, Y0, X0 + b * PX, Y0 - h * PX)])
    return out


def rasters(env, n, w=2, h=3):
    """DEM and land cover that cover n tiles"""
    gt = (X0, PX, 0.0, Y0, 0.0, -PX)
    w = max(1, n * w)
    dem = env.raster('in/dem.img', env.const(
        [[float(3 + r + c) for c in range(w)] for r in range(h)], 'float32'),
        gt, dtype='float32')
    lcv = env.raster('in/lc.img', env.const([[1] * w] * h, 'int32'), gt,
                     dtype='int32')
    return dem, lcv


def stub_stages(env, am, seen, rank=lambda: 0, act=None):
    """record (stage, rank, extent, paths, georeference of each path)"""
    for m, f in STAGES:
        mod = env.load(m)
        old = env.fn(mod, f)

        def stub(*a, _f=f, _sig=inspect.signature(old), **k):
            b = _sig.bind(*a, **k).arguments
            a = list(b.values())
            fit = all(isinstance(v, (tuple, list)) for n, v in b.items()
                      if 'extent' in n)
            ps = [x for x in a if isinstance(x, str)]
            ex = [x for x in a if isinstance(x, (tuple, list))]
            infos = [env.raster_info(p) for p in ps]
            if act is not None:
                act(_f, ps, ex)
            seen.append(dict(stage=_f, rank=rank(), paths=ps, info=infos,
                             extent=tuple(ex[0]) if ex and fit else None))
        env.patch(mod, f, stub)
        for k, v in list(vars(am).items()):
            if v is old:
                env.patch(am, k, stub)


def near(a, b):
    return len(a) == len(b) and all(abs(float(x) - float(y)) < 1e-6
                                    for x, y in zip(a, b))


def check_computed(env, seen, tiles, label='', grid=True):
    """each tile computed once by each stage, with its own rasters"""
    for st in [f for _, f in STAGES]:
        rec = [s for s in seen if s['stage'] == st]
        for t in tiles:
            mine = [s for s in rec if s['extent'] is not None and
                    near(s['extent'], t[2])]
            env.check('%s%s of %s computed once' % (label, st, t[0]),
                      len(mine) == 1)
            for s in mine if grid else ():
                env.check('%s%s of %s has its rasters' % (label, st, t[0]),
                          all(i is not None for i in s['info']))
                for i in s['info']:
                    if i is None:
                        continue
                    g = i['gt']
                    ext = (g[0], g[3], g[0] + i['w'] * g[1],
                           g[3] + i['h'] * g[5])
                    env.check('%s%s of %s: extent of its rasters' % (
                        label, st, t[0]), near(ext, t[1]))
        env.check('%s%s: nothing else' % (label, st),
                  len(rec) == len(tiles))


def leftovers(env, *sub):
    d = env.mkdir(*sub)
    return sorted(f for f in os.listdir(d)
                  if not os.path.isdir(os.path.join(d, f)))
