"""C09: directional averaging of the shielding factor."""
from sx.runner import Task
from props.util import DIRECTIONS, cells

ID = 'C09'
ASSUMPTIONS = ['scipy.ndimage.convolve as documented (constant mode)']
OUTSIDE = 'larger rasters and kernels'


def upwind(d, size):
    """offsets (row, column) of the cells averaged for a direction, written
    down for wind from the north and from the north-west, then rotated"""
    if len(d) == 1:
        o = [(-1, 0)] + [(-k, c) for k in range(2, size + 1)
                         for c in (-1, 0, 1)]
        turns = {'n': 0, 'e': 1, 's': 2, 'w': 3}[d]
    else:
        o = [(-r, -c) for r in range(1, size + 1)
             for c in range(1, size + 1) if r + c <= size + 1]
        turns = {'nw': 0, 'ne': 1, 'se': 2, 'sw': 3}[d]
    for _ in range(turns):
        o = [(c, -r) for r, c in o]     # a quarter turn clockwise
    return o


def blur(env, rows, cols, d, size, dtype='float32'):
    sm = env.load('shielding.shield_mult')
    data = env.farray('ms', (rows, cols), 0, 1, dtype=dtype)
    keep = data.copy()
    k = env.fn(sm, 'kern_' + d)(size)
    out = env.fn(sm, 'blur_image')(data, k)
    env.check('shape', tuple(out.shape) == (rows, cols))
    off = upwind(d, size)
    for r, c in cells((rows, cols)):
        s = 0
        for dr, dc in off:
            i, j = r + dr, c + dc
            s = s + (keep[i, j] if 0 <= i < rows and 0 <= j < cols else 1.0)
        env.check('mean upwind of (%d, %d)' % (r, c),
                  env.close(out[r, c], s / float(len(off))))
        env.check('input unchanged', data[r, c] == keep[r, c])
    env.observe('out', out)


def tasks(tier):
    sz = [(1, 3, 3), (2, 3, 4), (3, 4, 3), (4, 5, 5), (5, 7, 6), (6, 4, 7),
          (8, 3, 4), (10, 4, 3)]
    if tier == 'thorough':
        sz += [(5, 6, 6), (7, 8, 8), (3, 1, 5), (3, 6, 1),
               (2, 1, 1), (9, 4, 4)]
    return [Task('%s, size %d, %dx%d cells' % (d, s, r, c), blur,
                 dict(rows=r, cols=c, d=d, size=s),
                 bounds='every factor 0..1', validate=1)
            for d in DIRECTIONS for s, r, c in sz]
