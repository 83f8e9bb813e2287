"""C20: saved multiplier files."""
import os

from sx.runner import Task
from props.util import DIRECTIONS, cells

ID = 'C20'
ASSUMPTIONS = ['netCDF4 stores variables and attributes as it is told to '
               '(float32 values within 1e-5)']
OUTSIDE = 'larger grids (cells are independent); other file formats'
TITLE = {'Mz': 'terrain multiplier', 'Ms': 'shielding multiplier',
         'Mt': 'topographic multiplier'}
# options of one name in several sections, names that hold underscores,
# values with spaces and signs
MORE = {'Output': {'output_dir': 'o/p', 'root': 'other root'},
        'inputValues_x': {'dem_data': 'x.img'},
        'Aux': {'output_dir': 'a b', 'upwind_length': '', 'loglevel': '%'
                .replace('%', '7 = 8')}}


def same(env, got, want, scale=2):
    """the value, or missing where it is missing"""
    return env.Or(env.nanclose(got, want, scale),
                  env.And(env.isnan(want), got == -9999))


def plain(x):
    """text of an attribute"""
    return x.decode() if isinstance(x, bytes) else x


def save(env, shape, mult, git, again=False, where='out_x/some_dir'):
    nct = env.load('utilities.nctools')
    env.base_config(terrain_data='maps/cover_1.img', dem_data='srtm_x.img',
                    upwind_length='0.0123', more=MORE)
    env.git(git)
    d = env.choice('direction', DIRECTIONS)
    v = env.farray('m', shape, '0.3', 3, nan=True, dtype='float64')
    lat = [env.real('lat%d' % i, -60, 60) for i in range(shape[0])]
    lon = [env.real('lon%d' % i, -180, 180) for i in range(shape[1])]
    keep = v.copy()
    folder = env.mkdir(*where.split('/'))
    p = os.path.join(folder, 'e148.1s_%s_%s.nc' % (mult.lower(), d))
    if again:
        nct.save_multiplier(mult, env.const([[9.0] * 5] * 4, 'float64'),
                            [1.0] * 4, [2.0] * 5, p)
    nct.save_multiplier(mult, v, lat, lon, p)
    r = env.read_nc(p)
    env.check('file written and closed', r is not None and r['closed'])
    if r is None or not r['closed']:
        return
    env.check('variables', {mult, 'lat', 'lon'} <= set(r['vars']))
    if not {mult, 'lat', 'lon'} <= set(r['vars']):
        return
    g = r['vars'][mult]
    env.check('dimensions', tuple(g.shape) == tuple(shape) and
              tuple(r['vdims'][mult]) == ('lat', 'lon'))
    if tuple(g.shape) != tuple(shape):
        return
    for ix in cells(shape):
        env.check('value of %s' % (ix,), same(env, g[ix], keep[ix]))
        env.check('input unchanged', env.nanclose(v[ix], keep[ix]))
    for n, c in (('lat', lat), ('lon', lon)):
        w = r['vars'][n]
        env.check(n, tuple(w.shape) == (len(c),))
        for i, x in enumerate(c):
            env.check('%s %d' % (n, i), env.close(w[i], x, '0.01'))
    a = r['vatts'][mult]
    env.check('missing value declared', float(a.get('_FillValue', 0)) ==
              -9999)
    whole = [keep[ix] for ix in cells(shape)]
    for n, xs in ((mult, whole), ('lat', lat), ('lon', lon)):
        q = r['vatts'][n].get('actual_range')
        ok = q is not None and len(q) == 2
        env.check('range of %s' % n, ok)
        if not ok:
            continue
        good = [env.Not(env.isnan(x)) for x in xs]
        for e, end in enumerate(('least', 'greatest')):
            v_ = q[e]
            inside = env.And(*[env.Implies(k, (v_ <= x + 1e-4) if e == 0
                                           else (v_ >= x - 1e-4))
                               for k, x in zip(good, xs)])
            env.check('%s %s' % (end, n), env.Implies(env.Or(*good), env.And(
                env.Not(env.isnan(v_)), inside, env.Or(*[
                    env.And(k, env.close(v_, x, '0.01' if n != mult else 3))
                    for k, x in zip(good, xs)]))))
    env.check('coordinates are described', all(
        r['vatts'][n].get('units') == u for n, u in
        (('lat', 'degrees_north'), ('lon', 'degrees_east'))))
    env.check('grid mapping', any(
        t.get('grid_mapping_name') == 'latitude_longitude'
        for t in r['vatts'].values()))
    g = {k: plain(x) for k, x in r['attrs'].items()}
    env.check('multiplier and direction named',
              TITLE[mult] in str(g.get('Abstract')) and
              (' %s direction' % d) in str(g.get('Abstract')))
    env.check('input data sets', 'maps/cover_1.img' in str(g.get('Inputs'))
              and 'srtm_x.img' in str(g.get('Inputs')))
    env.check('configured options', g.get('inputValues_upwind_length') ==
              '0.0123' and g.get('Logging_loglevel') == 'INFO' and
              g.get('inputValues_root') == env.tmp)
    for s, o in MORE.items():
        for k, x in o.items():
            env.check('option %s of %s' % (k, s),
                      g.get('%s_%s' % (s, k)) == x)
    env.check('git description', 'v1.0-3-gabc' in str(g.get('Git_version'))
              if git else bool(g.get('Git_version')))
    env.observe('grid', r['vars'][mult])


def variables(env, n, keepopen):
    """the general function: several variables and dimensions"""
    nct = env.load('utilities.nctools')
    sizes = [2, 1, 3][:max(2, n)]
    dims, vs = {}, {}
    for i, s in enumerate(sizes):
        dims[i] = dict(name='d%d' % i, dtype='d', atts=dict(units='u%d' % i),
                       values=[env.real('d%d[%d]' % (i, k), -500, 500)
                               for k in range(s)])
    want = {}
    for k in range(n):
        dn = ['d%d' % i for i in range(len(sizes))][k % 2:]
        shape = tuple(sizes[int(x[1:])] for x in dn)
        a = env.farray('v%d' % k, shape, -100, 100, dtype='float64')
        want['v%d' % k] = a.copy()
        vs[k] = dict(name='v%d' % k, dims=tuple(dn), values=a, dtype='f',
                     atts=dict(note='n%d' % k))
    vs[n] = dict(name='empty', dims=(), values=None, dtype='i',
                 atts=dict(note='none'))
    p = env.path('a.nc')
    r = env.fn(nct, 'nc_save_grid')(
        p, dims, vs, nodata=-9999, datatitle='a title',
        gatts=dict(one='x', two=3.5), keepfileopen=keepopen)
    if keepopen:
        env.check('left open', r is not None)
        if r is None:
            return
        r.close()
    r = env.read_nc(p)
    env.check('written and closed', r is not None and r['closed'])
    if r is None or not r['closed']:
        return
    env.check('title', r['attrs'].get('title') == 'a title')
    env.check('global attributes', r['attrs'].get('one') == 'x' and
              r['attrs'].get('two') == 3.5)
    env.check('all variables', set(r['vars']) == set(want) | {'empty'} | {
        x['name'] for x in dims.values()})
    for k, a in want.items():
        g = r['vars'].get(k)
        if g is None or tuple(g.shape) != tuple(a.shape):
            env.check('shape of ' + k, False)
            continue
        env.check('note of ' + k, r['vatts'][k].get('note') == 'n' + k[1:])
        for ix in cells(a.shape):
            env.check('%s%s' % (k, ix), env.close(g[ix], a[ix], 100))
    for x in dims.values():
        g = r['vars'].get(x['name'])
        ok = g is not None and len(g) == len(x['values'])
        env.check('dimension ' + x['name'], ok)
        for i in range(len(x['values']) if ok else 0):
            env.check('%s %d' % (x['name'], i), env.close(
                g[i], x['values'][i], '0.01'))


def refused(env):
    """incomplete or unfitting descriptions raise, whatever is left out"""
    nct = env.load('utilities.nctools')
    d = dict(name='x', values=[1.0, 2.0], dtype='d', atts={})
    v = dict(name='v', dims=('x',), values=env.const([1.0, 2.0], 'float64'),
             dtype='f', atts={})
    what = env.choice('what', ['dim', 'var', 'rank'])
    if what == 'dim':
        del d[env.choice('key', ['name', 'values', 'dtype', 'atts'])]
    elif what == 'var':
        del v[env.choice('key', ['name', 'values', 'dtype', 'dims', 'atts'])]
    else:
        v['values'] = env.const([[1.0, 2.0]], 'float64')
    try:
        env.fn(nct, 'nc_save_grid')(env.path('b.nc'), {0: d}, {0: v})
        got = None
    except (KeyError, ValueError) as ex:
        got = type(ex)
    env.check('refused', got is (ValueError if what == 'rank' else KeyError))


def tasks(tier):
    sh = [(2, 2), (1, 3)] if tier == 'quick' else [(3, 3), (1, 4), (4, 1)]
    T = [Task('%s %dx%d git %s' % ((m,) + s + (g,)), save,
              dict(shape=s, mult=m, git=g), validate=1,
              bounds='every value 0.3..3 or missing, every coordinate, all '
              'directions')
         for m, g in (('Mz', True), ('Ms', False), ('Mt', None))
         for s in sh]
    T += [Task('saved again', save, dict(shape=(2, 1), mult='Mz', git=True,
                                         again=True), validate=1),
          Task('another folder', save, dict(shape=(1, 1), mult='Mt', git=True,
                                            where='ms_n.nc/terrain'),
               validate=1)]
    T += [Task('%d variables%s' % (n, ', kept open' if k else ''), variables,
               dict(n=n, keepopen=k), validate=1, bounds='every value '
               '-100..100') for n in (1, 2, 3) for k in (False, True)]
    T.append(Task('refused', refused, {}, validate=2))
    return T
