"""C11: shielding on windward slopes, removal of conservatism."""
from sx.runner import Task
from props.util import DIRECTIONS, cells

ID = 'C11'
ASSUMPTIONS = ['float32 arithmetic within 1e-5 of exact arithmetic']
OUTSIDE = 'larger arrays (cells are independent); infinite values'
FACING = ['n', 'ne', 'e', 'se', 's', 'sw', 'w', 'nw']


def wanted(env, f, slope, asp, d):
    """what the documentation says about one cell (f is not missing)"""
    steep = 1.0 * (slope - 3.27) / (12.3 - 3.27)
    part = f + (1.0 - f) * steep
    g = env.If(slope >= 12.3, 1.0, env.If(slope > 3.27, part, f))
    g = env.If(asp == FACING.index(d) + 1, g, f)
    return g, env.If(g < 0.9, 0.9 * g, g * g)


def combined(env, shape, d, dtype='float32', names=None, holes=True):
    sm = env.load('shielding.shield_mult')
    f = env.farray('factor', shape, 0, 1, nan=holes, dtype=dtype)
    s = env.farray('slope', shape, 0, 90, nan=holes)
    a = env.iarray('aspect', shape, 1, 9, dtype='int64')
    keep = f.copy()
    ks, ka = s.copy(), a.copy()
    out = env.fn(sm, 'combine')(f, s, a, d)
    env.check('shape', tuple(out.shape) == tuple(shape))
    for ix in cells(shape):
        none = env.isnan(keep[ix])
        # without a slope the cell is not steep
        slope = env.If(env.isnan(ks[ix]), 0.0, ks[ix])
        g, w = wanted(env, keep[ix], slope, ka[ix], d)
        env.check('missing cell %s' % (ix,), env.isnan(out[ix]) == none)
        env.check('multiplier of cell %s' % (ix,), env.Or(
            none, env.close(out[ix], w)))
        env.check('slope and aspect unchanged %s' % (ix,), env.And(
            ka[ix] == a[ix], env.nanclose(ks[ix], s[ix])))
    env.observe('out', out)


def tasks(tier):
    sh = [(1, 2)]
    if tier == 'thorough':
        sh = [(1, 1), (2, 2), (1, 5), (3, 3)]
    T = [Task('%s, %dx%d, %s' % (d, s[0], s[1], t), combined,
              dict(shape=s, d=d, dtype=t), validate=2,
              bounds='factors 0..1 or missing, slopes 0..90 or missing, '
              'aspects 1..9')
         for d in DIRECTIONS for s in sh for t in ('float32', 'float64')]
    return T
