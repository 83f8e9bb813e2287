"""C25: joining land use with settlements, and the category codes."""
import logging

from sx import geo
from sx.runner import Task

ID = 'C25'
ASSUMPTIONS = ['polygons are boxes [a, b] x [0, 1] in the symbolic world, '
               'every intersection area of disjoint settlements among them',
               'shapely and fiona as documented; thread pools run tasks in '
               'the order of submission or in the opposite one']
OUTSIDE = ('invalid polygons; settlements that overlap; which settlement an '
           'area takes that only touches some')

SETTLEMENTS = {'Major CBD': 1, 'City': 2, 'Urban': 3, 'Large Town': 4,
               'Small Town': 5}
USES = {'Parkland': 1, 'Primary Production': 2, 'Education': 4,
        'Residential': 5, 'Water': 6, 'Other': 7, 'Commercial': 8,
        'Industrial': 9, 'Hospital/Medical': 10, 'Transport': 11}
TYPES = list(SETTLEMENTS) + ['Village', None]
LANDS = list(USES) + ['Forest', None]


def strips(env, name, n, gap=True):
    """n boxes that do not overlap, in either order"""
    x, out = env.real(name + '.start', -4, 4), []
    for i in range(n):
        if i and gap:
            x = x + env.real('%s.gap[%d]' % (name, i), 0, 2)
        b = x + env.real('%s.len[%d]' % (name, i), 0.125, 4)
        out.append((x, b))
        x = b
    if n > 1 and env.fix(env.bool(name + '.reversed')):
        out.reverse()
    return out


def common(env, a, b):
    return env.max(env.min(a[1], b[1]) - env.max(a[0], b[0]), 0.0)


def touch(env, a, b):
    return env.And(a[0] <= b[1], b[0] <= a[1])


def may_take(env, k, cover, near):
    """settlement k is right for an area: the largest common part; any that
    is touched where nothing is covered"""
    best = env.And(*[cover[k] >= c - 1e-6 for c in cover.values()])
    some = env.Or(*[c > 0 for c in cover.values()])
    return env.And(near[k], best) if some is True else env.And(
        near[k], env.Or(env.Not(some), best))


def join(env, nareas, nset, pieces=()):
    """spatial_join itself; settlement k consists of several strips where
    pieces says so"""
    sf = env.fn('utilities.shapefiles', 'shp_file')
    geo.schedule(env, env.fix(env.bool('backwards'))
                 if nareas > 1 else False)
    n = sum(pieces) if pieces else nset
    st = strips(env, 's', n)
    owner = [k for k, m in enumerate(pieces or [1] * nset)
             for _ in range(m)]
    if pieces:                    # strips of the settlements alternate
        owner = sorted(range(n), key=lambda i: (i % 2, i))
        owner = [[k for k, m in enumerate(pieces) for _ in range(m)][i]
                 for i in owner]
    areas = [(x, x + w) for x, w in [
        (env.real('a[%d]' % i, -4, 8), 0.75 + 1.5 * i if nareas > 1 else
         env.real('w[%d]' % i, 0.125, 6)) for i in range(nareas)]]
    a, b = sf(), sf()
    ga = [env.boxes([x]) for x in areas]
    a.geom = list(ga)
    a.attribute = [{'k': i} for i in range(nareas)]
    b.geom = [env.boxes([s for s, o in zip(st, owner) if o == k])
              for k in range(nset)]
    b.attribute = [{'T': 'type %d' % k, 'n': k} for k in range(nset)]
    rows = list(a.attribute)
    a.spatial_join(b, 'T')
    env.check('same areas', len(a.attribute) == nareas and
              len(a.geom) == nareas and
              [r.get('k') for r in a.attribute] == list(range(nareas)) and
              all(x is y for x, y in zip(a.geom, ga)))
    env.check('settlements unchanged', [dict(x) for x in b.attribute] == [
        {'T': 'type %d' % k, 'n': k} for k in range(nset)])
    del rows
    for i in range(nareas):
        if i >= len(a.attribute):
            break
        r = a.attribute[i]
        t = r.get('T', 'missing')
        cover, near = {}, {}
        for k in range(nset):
            ps = [s for s, o in zip(st, owner) if o == k]
            cover[k] = env.sum(common(env, areas[i], s) for s in ps)
            near[k] = env.Or(*[touch(env, areas[i], s) for s in ps])
        k = {'type %d' % j: j for j in range(nset)}.get(t)
        if k is None:
            env.check('area %d meets no settlement' % i, env.And(
                t is None, *[env.Not(x) for x in near.values()]))
        else:
            env.check('area %d takes the settlement covering most of it' % i,
                      may_take(env, k, cover, near))


def merge(env, n, names):
    """dissolve: one area per value, made of all its areas"""
    sf = env.fn('utilities.shapefiles', 'shp_file')
    st = strips(env, 's', n)
    tn = [env.choice('type[%d]' % k, names) for k in range(n)]
    a = sf()
    a.geom = [env.boxes([b]) for b in st]
    a.attribute = [{'id': k, 'T': t} for k, t in enumerate(tn)]
    a.dissolve('T')
    env.check('as many areas as records', len(a.geom) == len(a.attribute))
    got = [r.get('T') for r in a.attribute]
    env.check('every value once', sorted(map(str, got)) == sorted(
        map(str, set(tn))))
    for t, g in zip(got, a.geom):
        mine = [b for b, u in zip(st, tn) if u == t]
        if not mine:
            continue
        size, bounds = g.area, g.bounds
        env.check('area of %s' % t, env.close(size, env.sum(
            y - x for x, y in mine)))
        env.check('extent of %s' % t, env.And(
            env.close(bounds[0], env.min(*[x for x, _ in mine])),
            env.close(bounds[2], env.max(*[y for _, y in mine]))))


def files(env, types, lands, crop=False, empty=False, cat='SUA', use='MB'):
    """pre_process on files"""
    logging.disable(logging.CRITICAL)
    try:
        pp = env.load('pre_process')
        geo.schedule(env, False)
        st = strips(env, 's', len(types))
        areas = [(x, x + w) for x, w in [
            (env.real('a[%d]' % i, -4, 8), env.real('w[%d]' % i, 0.125, 6))
            for i in range(len(lands))]]
        tn = [env.choice('type[%d]' % k, t) for k, t in enumerate(types)]
        ln = [env.choice('use[%d]' % k, t) for k, t in enumerate(lands)]
        s = env.vector('s.shp', {cat: 'str:100', 'id': 'int'}, [
            ([b], {cat: t, 'id': k}) for k, (b, t) in
            enumerate(zip(st, tn))])
        rows = [([b], {use: t, 'id': k}) for k, (b, t) in
                enumerate(zip(areas, ln))]
        if empty:
            rows.insert(1, (None, {use: 'Water', 'id': 99}))
        lu = env.vector('l.shp', {use: 'str:100', 'id': 'int'}, rows)
        mask = 'None'
        if crop:
            x = env.real('crop', -4, 6)
            w = (x, x + env.real('crop width', 0.5, 6))
            mask = env.vector('c.shp', {'k': 'int'}, [([w], {'k': 1})])
        out = env.path('out', 'o.shp')
        env.fn(pp, 'pre_process')(s, cat, lu, use, mask, out)
    finally:
        logging.disable(logging.NOTSET)
    r = env.read_vector(out)
    env.check('output written', r is not None)
    if r is None:
        return
    keep = list(range(len(areas)))
    if crop:
        keep = [i for i in keep if env.fix(common(env, areas[i], w) > 0)]
        clip = lambda b: (env.max(b[0], w[0]), env.min(b[1], w[1]))
        inside = [k for k in range(len(st))
                  if env.fix(common(env, st[k], w) > 0)]
        areas = [clip(b) for b in areas]
        st = [clip(b) for b in st]
    else:
        inside = range(len(st))
    env.check('the areas, in order', [x[2].get('id') for x in r['rows']] ==
              keep)
    if [x[2].get('id') for x in r['rows']] != keep:
        return
    names = [t if t in SETTLEMENTS else None for t in tn]
    for i, (size, bounds, p) in zip(keep, r['rows']):
        a = areas[i]
        env.check('shape of area %d' % i, env.And(
            env.close(size, a[1] - a[0]), env.close(bounds[0], a[0]),
            env.close(bounds[2], a[1])))
        env.check('land use of area %d' % i, p.get(use) == ln[i])
        cover, near = {}, {}
        for k in inside:
            n = names[k]
            cover[n] = cover.get(n, 0.0) + common(env, a, st[k])
            near[n] = env.Or(near.get(n, False), touch(env, a, st[k]))
        t = p.get(cat, 'missing')
        code = SETTLEMENTS.get(t, 0) * 100 + USES.get(ln[i], 0)
        env.check('code of area %d' % i, p.get('CAT') == code)
        if t is None and None not in cover:
            env.check('area %d in no settlement' % i, env.And(
                *[env.Not(x) for x in near.values()]))
        elif t is None:
            env.check('area %d in none of the types' % i, env.Or(
                env.And(*[env.Not(x) for x in near.values()]),
                may_take(env, None, cover, near)))
        else:
            env.check('type of area %d' % i, t in cover and
                      may_take(env, t, cover, near))


def tasks(tier):
    q = tier == 'quick'
    T = [Task('join %dx%d' % (a, s), join, dict(nareas=a, nset=s),
              bounds='every position and size')
         for a, s in [(1, 1), (2, 1), (1, 2), (2, 2), (1, 3)] + (
             [] if q else [(3, 2), (1, 4), (2, 3)])]
    T.append(Task('join, settlements of several parts', join, dict(
        nareas=1, nset=2, pieces=(2, 1)), bounds='every position and size'))
    T.append(Task('dissolve itself', merge, dict(n=3, names=[
        'Dam', 'DAM', 'Dam ', None]), bounds='every triple of four values'))
    if not q:
        T.append(Task('dissolve itself, 4 areas', merge, dict(n=4, names=[
            'b', 'B', 'a', None]), bounds='every choice of four values'))
    two = ['City', 'Village', 'Urban']
    T += [Task('names', files, dict(types=[TYPES], lands=[LANDS]),
               bounds='every pair of names'),
          Task('two types', files, dict(types=[TYPES, ['City', None]],
                                        lands=[['Water']]),
               bounds='pairs of names'),
          Task('dissolve', files, dict(types=[two, two, ['City', 'Urban']],
                                       lands=[['Education']])),
          Task('two areas', files, dict(types=[['Urban'], ['City', 'Hut']],
                                        lands=[['Water'], ['Other']],
                                        empty=True, cat='SETTLEMENT',
                                        use='MB_CAT16')),
          Task('crop', files, dict(types=[['City'], ['Urban', None]],
                                   lands=[['Transport']], crop=True)),
          Task('crop of two areas', files, dict(
              types=[['City']], lands=[['Transport'], ['Parkland']],
              crop=True))]
    return T
