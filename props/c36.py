"""C36: the chosen configuration file, option by option, for all modules."""
import configparser as cp
import os

from sx.runner import Task

ID = 'C36'
ASSUMPTIONS = ['INI syntax as read by Python\'s RawConfigParser']
OUTSIDE = ('options other than the listed ones; what an option that the '
           'second of two chosen files omits goes back to')
USERS = ('terrain.terrain_mult', 'shielding.shield_mult',
         'utilities.nctools', 'all_multipliers')
OPTIONS = [('inputValues', 'terrain_table'), ('inputValues', 'dem_data'),
           ('inputValues', 'terrain_data'), ('Output', 'output_dir'),
           ('inputValues', 'upwind_length'), ('Logging', 'LogLevel'),
           ('Preprocessing', 'input_topo')]


def write(env, rel, have, value):
    p = env.path(rel)
    with open(p, 'w') as f:
        for s in dict.fromkeys(s for s, _ in have):
            f.write('# chosen by the user\n[%s]\n' % s)
            for t, o in have:
                if t == s:
                    f.write('%s = %s\n' % (o, value[t, o]))
    return p


def defaults(env):
    """the options of the file in the project directory"""
    d = cp.RawConfigParser()
    am = env.load('all_multipliers')
    d.read(os.path.join(os.path.dirname(os.path.realpath(am.__file__)),
                        'multiplier_conf.cfg'))
    return d


def table(env, n, z0, ms):
    p = env.path('table%d.csv' % n)
    with open(p, 'w') as f:
        f.write('CATEGORY,DESCRIPTION,ROUGHNESS_LENGTH_m,SHIELDING\n')
        f.write('1,land,%r,%r\n' % (z0, ms))
    return p


def values(env, n):
    v = {(s, o): '%s-%d' % (o, n) for s, o in OPTIONS}
    v['inputValues', 'terrain_table'] = table(env, n, 0.1 * n, 50 + n)
    v['inputValues', 'dem_data'] = 'in/Q 50%% (dem)s a=b #%d.tif' % n
    v['inputValues', 'terrain_data'] = 'C:/Land Cover/%%(x)s;%d.IMG' % n
    v['inputValues', 'upwind_length'] = '0.0%d' % n
    return v


def chosen(config, section, option):
    """what a module would read, or the error"""
    try:
        return config.get(section, option)
    except cp.Error as ex:
        return ex


def precedence(env, options, late, files):
    """late: modules imported after the file was chosen"""
    mods = [] if late else [env.load(m) for m in USERS]
    d = defaults(env)
    conf = env.fn('utilities.config', 'configparser')
    last = None
    for n in range(1, files + 1):
        v = values(env, n)
        have = [o for o in options if env.fix(env.bool('%s in file %d' % (
            '/'.join(o), n)))]
        conf.set_config_file(write(env, 'conf/%d.cfg' % n, have, v))
        last = have, v
    mods = mods or [env.load(m) for m in USERS]
    have, v = last
    for m in mods:
        if not hasattr(m, 'config'):
            continue
        for s, o in options:
            n = '%s %s in %s' % (s, o, m.__name__)
            if (s, o) in have:
                env.check(n + ': as chosen', chosen(m.config, s, o) == v[s, o])
            elif files == 1 and d.has_option(s, o):
                env.check(n + ': default', chosen(m.config, s, o) == d.get(s, o))
    if ('inputValues', 'terrain_table') in have:
        t = env.fn('terrain.terrain_mult', 'get_terrain_table')()
        env.check('terrain table: as chosen', len(t) == 1 and abs(float(
            t['ROUGHNESS_LENGTH_m'].iloc[0]) - 0.1 * files) < 1e-9)
        t = env.fn('shielding.shield_mult', 'get_shielding_table')()
        env.check('shielding table: as chosen', len(t) == 1 and float(
            t['SHIELDING'].iloc[0]) == 50 + files)


def tasks(tier):
    q = tier == 'quick'
    T = [('modules imported before', OPTIONS[:5], False, 1),
         ('modules imported after', OPTIONS[:5], True, 1),
         ('other sections', OPTIONS[3:], False, 1),
         ('a second file', OPTIONS[:3], False, 2)]
    if not q:
        T += [('all options', OPTIONS, False, 1),
              ('a second file of five options', OPTIONS[:5], True, 2)]
    return [Task(t[0], precedence, dict(zip(('options', 'late', 'files'),
                                            t[1:])), validate=2,
                 bounds='every subset of %d options in each of %d files' % (
                     len(t[1]), t[3])) for t in T]
