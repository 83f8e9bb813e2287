"""C04: the names of the tiles are distinct and usable as file prefixes."""
import re

from sx.runner import Task

ID = 'C04'
ASSUMPTIONS = ['the rendering of a float cut to n characters agrees for two '
               'numbers only if they differ by less than one unit of the '
               'last digit kept (no exponent notation: 0.001 <= |x| < 1000)']
OUTSIDE = 'tile corners within 0.001 degree of the equator or meridian 0'


def names(env, pw, ph, tx, ty, west, north):
    import math
    sx, sy = math.ceil(1.0 / pw), math.ceil(1.0 / ph)
    lo, hi = west
    x0 = env.real('x_left', lo, hi)
    lo, hi = north
    y0 = env.real('y_top', lo, hi)
    # inputs a user can give: multiples of 1e-4 degree, say; any real here
    p = env.raster('dem.img', None, (x0, pw, 0.0, y0, 0.0, -ph),
                   size=(tx * sx, ty * sy), dtype='float32')
    up = env.const_up
    am = env.load('all_multipliers')
    tg = am.TileGrid(up, p)
    n = int(tg.num_tiles)
    nm = [am.get_tiles(tg)[k][0] for k in range(n)]
    env.check('number of tiles', n == tx * ty)
    for k in range(n):
        for v in tg.get_startcord(k):
            env.assume(env.Or(v >= 0.001, v <= -0.001))
    for i in range(n):
        for j in range(i):
            env.check('tiles %d and %d have different names' % (i, j),
                      env.Not(nm[i] == nm[j]))
        # the tile's upper left corner, latitudes counted southwards
        ext = am.get_tiles(tg)[i][2]
        x, y = tg.get_startcord(i)
        env.check('tile %d: the name is made from its west edge' % i,
                  env.close(x, ext[0], 200))
        env.check('tile %d: the name is made from its north edge' % i,
                  env.close(-y, ext[1], 200))
        if not env.sym:
            m = re.match('^e(-?[0-9.]+)s(-?[0-9.]+)$', nm[i])
            env.check('tile %d: the name tells its corner' % i, bool(m) and
                      abs(float(m[1]) - ext[0]) < 0.0012 and
                      abs(float(m[2]) + ext[1]) < 0.0012)
            env.check('name usable as a file prefix',
                      '_' not in nm[i] and '/' not in nm[i])
    env.observe('n', n)


def tasks(tier):
    out = []

    def go(env, **k):
        env.const_up = 0.01
        names(env, **k)
    reg = [('Australia', (110, 155), (-45, -9)),
           ('east of Greenwich', (1, 99), (-60, -5)),
           ('west and north', (-170, -20), (10, 70)),
           ('across Greenwich and the equator', (-3, 0), (-1, 4))]
    for pw, ph, tx, ty in [(0.5, 0.5, 2, 2), (0.01, 0.01, 3, 2),
                           (0.0002777777777777778, 0.0002777777777777778,
                            2, 2), (0.75, 0.4, 2, 3)] + (
            [(0.1, 0.05, 4, 4), (0.3, 0.125, 3, 5)]
            if tier == 'thorough' else []):
        for nm, we, no in reg:
            out.append(Task('%s, pixel %g x %g, %dx%d tiles' % (
                nm, pw, ph, tx, ty), go,
                dict(pw=pw, ph=ph, tx=tx, ty=ty, west=we, north=no),
                bounds='upper left corner anywhere in lon %s, lat %s; '
                '%d x %d tiles' % (we, no, tx, ty)))
    return out
