"""Helpers shared by the property harnesses."""
import math

import numpy as np

DIRECTIONS = ['w', 'e', 'n', 's', 'nw', 'ne', 'se', 'sw']
STEP = {'n': (-1, 0), 's': (1, 0), 'w': (0, -1), 'e': (0, 1),
        'nw': (-1, -1), 'ne': (-1, 1), 'sw': (1, -1), 'se': (1, 1)}
A, B = 6378137.0, 6356752.3142


def cell_size(px, py, lat):
    """(width, height) in metres of a cell, from the radii of curvature of
    the ellipsoid: independent of the repository's Vincenty code"""
    e2 = 1 - B * B / (A * A)
    la = math.radians(lat)
    w = math.sqrt(1 - e2 * math.sin(la) ** 2)
    n, m = A / w, A * (1 - e2) / w ** 3
    return (math.radians(px) * n * math.cos(la), math.radians(py) * m)


def whole(x, how):
    """x in whole cells; the harness insists on being far from a step"""
    f = math.floor(x)
    t = x - f
    if how == 'round':
        assert abs(t - 0.5) > 0.002, x
        return f + (t > 0.5)
    assert 0.002 < t < 0.998, x
    return f


def pixel_for(metres, lat):
    """square pixel (degrees) of the given mean size at a latitude"""
    w, h = cell_size(1e-4, 1e-4, lat)
    return metres / ((w + h) / 2) * 1e-4


def cells(shape):
    return list(np.ndindex(*shape))


def extent(x0, y0, px, py, c0, r0, nc, nr):
    """extent tuple of a window of a tile whose upper left corner is x0, y0"""
    return (x0 + c0 * px, y0 - r0 * py, x0 + (c0 + nc) * px,
            y0 - (r0 + nr) * py)


def check_grid(env, label, nc, var, want, x0, y0, px, py, c0, r0, scale=2,
               sure=True):
    """a saved multiplier file has the wanted values on the wanted cells"""
    env.check(label + ': file written and closed',
              nc is not None and nc['closed'])
    if nc is None or not nc['closed']:
        return
    env.check(label + ': variable', var in nc['vars'])
    if var not in nc['vars']:
        return
    v = nc['vars'][var]
    nr, ncol = len(want), len(want[0])
    env.check(label + ': shape', tuple(v.shape) == (nr, ncol))
    if tuple(v.shape) != (nr, ncol):
        return
    for i in range(nr):
        for j in range(ncol):
            env.check('%s: value of cell (%d, %d)' % (label, i, j),
                      env.Implies(sure, env.nanclose(v[i, j], want[i][j],
                                                     scale)))
    lat, lon = nc['vars']['lat'], nc['vars']['lon']
    env.check(label + ': coordinates', len(lat) == nr and len(lon) == ncol
              and all(abs(float(lon[j]) - (x0 + (c0 + j + 0.5) * px))
                      < px / 50 for j in range(ncol))
              and all(abs(float(lat[i]) - (y0 - (r0 + i + 0.5) * py))
                      < py / 50 for i in range(nr)))
