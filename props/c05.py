"""C05: terrain classes become the terrain multiplier of their roughness."""
from sx.runner import Task

ID = 'C05'
ASSUMPTIONS = ['natural logarithm as an uninterpreted function with true '
               'bounds at fixed points (exact where code and formula apply it '
               'to the same argument)',
               'float32 storage treated as exact within 1e-5 relative']
OUTSIDE = ('larger arrays and tables (cells and rows are treated alike by '
           'the executed array operations); roughness below 0.0003 m, where '
           'the formula has no real value')


def rough(env, name):
    return env.real(name, '0.0003', 3)


def formula(env, z0):
    return -0.2827 * env.log(0.4554 * env.log(z0) + 3.734) + 1.0762


def mapping(env, shape, nrow, dtype, order):
    tm = env.load('terrain.terrain_mult')
    cats = [env.int('cat%d' % i, 0, 500) for i in range(nrow)]
    z0 = [rough(env, 'z%d' % i) for i in range(nrow)]
    for i in range(nrow):
        for j in range(i):
            env.assume(env.Not(cats[i] == cats[j]))
    tab = env.table(list(zip(cats, z0, [100] * nrow)))
    env.base_config(tab)
    data = env.iarray('class', shape, -1, 500, dtype='int32')
    if dtype != 'int32':
        data = data.astype(dtype)
    out = env.fn(tm, 'terrain_class2mz_orig')(
        data.copy(), env.fn(tm, 'get_terrain_table')())
    env.check('shape kept', tuple(out.shape) == tuple(data.shape))
    mz = [formula(env, z) for z in z0]
    want = []
    for ix in np_ndindex(shape):
        w = 0.0
        for c, m in zip(cats, mz):
            w = env.If(data[ix] == c, m, w)
        env.check('multiplier of cell %s' % (ix,), env.close(out[ix], w, 2))
    env.observe('out', out)


def np_ndindex(shape):
    import numpy as np
    return list(np.ndindex(*shape))


def documented(env):
    """the classes of the documentation, through a whole table"""
    tm = env.load('terrain.terrain_mult')
    rows = [(11, 2.0, 85), (12, 1.0, 85), (13, 0.4, 90), (2, 0.2, 100),
            (31, 0.1, 100), (4, 0.06, 100), (55, 0.02, 100),
            (60, 0.006, 100), (7, 0.0002 * 2, 100)]
    env.base_config(env.table(rows))
    k = env.choice('row', range(len(rows)))
    x = env.int('class', 0, 100)
    env.assume(x == rows[k][0])
    data = env.const([[0, 1]], 'int32')
    data[0, 0] = x
    out = tm.terrain_class2mz_orig(data, tm.get_terrain_table())
    import math
    env.check('tabulated roughness', env.close(
        out[0, 0], -0.2827 * math.log(0.4554 * math.log(rows[k][1]) + 3.734)
        + 1.0762, 2))
    env.check('unlisted class', out[0, 1] == 0)


def tasks(tier):
    combos = [((1, 2), 1, 'int32'), ((2, 2), 3, 'int32'),
              ((1, 3), 2, 'float32'), ((3, 1), 2, 'int16'),
              ((2, 2), 2, 'uint8')]
    if tier == 'thorough':
        combos += [((3, 3), 5, 'int32'), ((2, 4), 6, 'float32'),
                   ((4, 3), 4, 'int32')]
    out = [Task('%dx%d cells, %d rows, %s' % (s + (n, d)), mapping,
                dict(shape=s, nrow=n, dtype=d, order=0),
                bounds='classes -1..500, roughness 0.0003..3 m, distinct '
                'categories') for s, n, d in combos]
    out.append(Task('documented roughness values', documented))
    return out
