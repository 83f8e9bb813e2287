"""C26: the output directory is prepared by the master only, and fully."""
import os
import types

from sx.runner import Task
from props.fs import Watch, tree
from props.mpi import World

ID = 'C26'
ASSUMPTIONS = ['the file system behaves as POSIX says; operations outside '
               'the scratch directory are refused and reported']
OUTSIDE = 'an output directory that is a link or a mount point'
FOLDERS = ['M3', 'M3_max', 'shielding', 'terrain', 'topographic']
FILES = ['.hidden', 'terrain/e1_mz_n.nc', 'extra/deep/er/y',
         'M3/.old', 'terrain/leftover/a.nc', 'old.txt',
         'shielding/e1_ms_n.nc', 'topographic/raster/x.tif', 'M3/e1.tif',
         'M3_max/e1.tif']
# links in the old output directory, and where they lead
LINKS = {'linked': '../b', 'M3/to': '{tmp}/a', 'terrain/one': '../../keep',
         'extra/link': '{tmp}/M3', 'gone': 'nowhere'}


class Status:
    source = tag = 0


def fake_mpi(env, size, rank):
    """mpi4py for one process of many"""
    comm = types.SimpleNamespace(
        size=size, rank=rank, Get_size=lambda: size, Get_rank=lambda: rank,
        barrier=lambda: None, Barrier=lambda: None, name='x')
    m = types.ModuleType('mpi4py')
    m.MPI = types.SimpleNamespace(COMM_WORLD=comm, Status=Status,
                                  ANY_SOURCE=-1, ANY_TAG=-1,
                                  Finalize=lambda: None, Init=lambda: None)
    env.provide('mpi4py', m)
    return m.MPI


def write(p, text):
    os.makedirs(os.path.dirname(p), exist_ok=True)
    with open(p, 'w') as f:
        f.write(text)


def surroundings(env, exists, most, links=0):
    """files beside the output directory, and some of FILES and of LINKS in
    it"""
    for f in ('a/keep.txt', 'a/b/data.img', 'a/b/out2/terrain/x.nc',
              'a/b/output/y', 'terrain/z', 'M3/z', 'out/z'):
        write(env.path(f), f)
    if not exists:
        return
    env.mkdir('a', 'b', 'out')
    for k, f in enumerate(FILES[:most]):
        if env.fix(env.bool('has ' + f)):
            write(env.path('a/b/out', f), f)
    for f in list(LINKS)[:links]:
        if env.fix(env.bool('link ' + f)):
            p = env.path('a/b/out', f)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            os.symlink(LINKS[f].format(tmp=env.tmp), p)


def check_new(env, before, after, rel, label=''):
    """exactly the five empty folders, and the rest as it was"""
    inside = {k: v for k, v in after.items() if k.startswith(rel + os.sep)}
    env.check(label + 'the output directory is there', rel in after)
    env.check(label + 'exactly the five empty folders', inside == {
        os.path.join(rel, f): None for f in FOLDERS})
    up = [rel]
    while os.path.dirname(up[-1]):
        up.append(os.path.dirname(up[-1]))

    def rest(t):
        return {k: v for k, v in t.items() if k not in up and
                not k.startswith(rel + os.sep)}
    env.check(label + 'nothing else is changed', rest(before) == rest(after))


def create(env, exists=True, most=4, many=True, form='abs', mpi=True,
           links=0):
    am = env.load('all_multipliers')
    par = env.load('utilities.parallel')
    if mpi:
        size = env.int('size', 1, 64)
        rank = env.int('rank', 0, 63)
        env.assume(rank < size)
        if not many:
            env.assume(size == 1)
        fake_mpi(env, size, rank)
    else:
        rank = 0
    surroundings(env, exists, most, links)
    rel = os.path.join('a', 'b', 'out') if form != 'new' else os.path.join(
        'a', 'n', 'm', 'out')
    out = {'abs': env.path(rel), 'new': os.path.join(env.tmp, rel),
           'rel': rel, 'slash': env.path(rel) + os.sep,
           'dot': os.path.join(env.tmp, 'a', '.', 'b', '..', 'b', 'out')
           }[form]
    before = tree(env.tmp)
    env.fn(par, 'attempt_parallel')()
    w = Watch(env)
    env.fn(am, 'do_output_directory_creation')(out)
    after = tree(env.tmp)
    if env.fix(rank > 0):
        env.check('a worker changes nothing', w.log == [])
        env.check('all as it was', before == after)
    else:
        check_new(env, before, after, rel)
        inside = os.path.join(os.path.realpath(env.tmp), rel)
        env.check('deletes nothing outside', all(
            p == inside or p.startswith(inside + os.sep)
            for _, k, p in w.log if k != 'create'))


def refused(env):
    """a directory that cannot be created is an error"""
    am = env.load('all_multipliers')
    par = env.load('utilities.parallel')
    write(env.path('a/file'), 'not a directory')
    surroundings(env, False, 0)
    before = tree(env.tmp)
    env.fn(par, 'attempt_parallel')()
    Watch(env)
    n = env.choice('name', ['out', 'x/out'])
    try:
        env.fn(am, 'do_output_directory_creation')(
            os.path.join(env.tmp, 'a', 'file', n))
        err = False
    except OSError:
        err = True
    env.check('reported', err)
    env.check('nothing lost', tree(env.tmp) == before)


def together(env, size, again=False, most=3):
    """all processes prepare the directory, then use it"""
    am = env.load('all_multipliers')
    par = env.load('utilities.parallel')
    w = World(env, size, orders=99)
    m = types.ModuleType('mpi4py')
    m.MPI = w.mpi
    env.provide('mpi4py', m)
    surroundings(env, env.fix(env.bool('exists')), most)
    out = env.path('a/b/out')
    before = tree(env.tmp)
    watch = Watch(env, w.me)

    def one(rank):
        env.fn(par, 'attempt_parallel')()
        for _ in range(1 + again):
            env.fn(am, 'do_output_directory_creation')(out)
            w.comm.barrier()
            with open(os.path.join(out, 'terrain', 't%d' % rank), 'w') as f:
                f.write('x')
            w.comm.barrier()
    w.run(one)
    w.ok()
    env.check('only the master', all(r == 0 for r, _, _ in watch.log))
    for r in range(size):
        f = os.path.join(out, 'terrain', 't%d' % r)
        env.check('result of %d is kept' % r, os.path.exists(f))
        if os.path.exists(f):
            with open(f) as fd:
                env.check('its contents', fd.read() == 'x')
    after = {k: v for k, v in tree(env.tmp).items()
             if not k.startswith('a/b/out/terrain/t')}
    check_new(env, before, after, 'a/b/out')


def convert_dirs(env, most):
    """the folders for a conversion, with whatever is there"""
    cv = env.load('utilities.convert')
    env.mkdir('a', 'b', 'out')
    for f in ('M3', 'M3_max', 'terrain'):
        if env.fix(env.bool('folder ' + f)):
            env.mkdir('a', 'b', 'out', f)
    for f in ['M3/e1.tif', 'M3_max/wind-multipliers.vrt', 'notes',
              'M3/deep/x.tif', 'shielding/e1_ms_n.nc'][:most]:
        if env.fix(env.bool('has ' + f)):
            write(env.path('a/b/out', f), f)
    write(env.path('a/keep'), 'x')
    before = tree(env.tmp)
    f = env.fn(cv, 'create_sub_dirs_for_convert')
    w = Watch(env)
    out = env.path('a', 'b', 'out')
    for _ in range(int(env.int('times', 1, 2))):
        f(out)
    after = tree(env.tmp)
    want = dict(before)
    for d in ('M3', 'M3_max'):
        want['a/b/out/' + d] = None
    env.check('both folders, and all there was', after == want)
    env.check('nothing deleted', not [x for x in w.log if x[1] != 'create'])


def decorated(env):
    """disable_on_workers: master calls once with its arguments, worker
    never"""
    par = env.load('utilities.parallel')
    size = env.int('size', 1, 64)
    rank = env.int('rank', 0, 63)
    env.assume(rank < size)
    late = env.fix(env.bool('decorated first'))
    calls = []

    def f(*a, **k):
        """doc"""
        calls.append((a, k))
    if late:
        g = env.fn(par, 'disable_on_workers')(f)
    fake_mpi(env, size, rank)
    env.fn(par, 'attempt_parallel')()
    if not late:
        g = env.fn(par, 'disable_on_workers')(f)
    g(1, 'x', k=2)
    if env.fix(rank > 0):
        env.check('not on a worker', calls == [])
    else:
        env.check('once on the master', calls == [((1, 'x'), {'k': 2})])
    env.check('keeps its name', g.__name__ == 'f')


def tasks(tier):
    q = tier == 'quick'
    n = 4 if q else 7
    T = [Task('over an old directory', create, dict(most=n), validate=3,
              bounds='every rank and size up to 64, every set of old files'),
         Task('without MPI', create, dict(most=n + 2, mpi=False), validate=2,
              bounds='every set of old files'),
         Task('all old files', create, dict(most=len(FILES), many=False),
              validate=2),
         Task('links', create, dict(most=1, mpi=False, links=len(LINKS)),
              validate=2, bounds='every set of old links to files and '
              'directories in and around the output directory')]
    T += [Task('no directory yet, ' + f, create, dict(
        exists=False, form=f), validate=2) for f in ('abs', 'new', 'rel')]
    T += [Task('path given as ' + f, create, dict(form=f, most=3),
               validate=2) for f in ('rel', 'slash', 'dot')]
    T.append(Task('cannot be created', refused, validate=2))
    for s in (2, 3) + (() if q else (4, 6)):
        T.append(Task('%d processes' % s, together, dict(size=s, most=
                      3 if s == 2 else 1),
                      validate=2, bounds='every order of the processes'))
    T.append(Task('2 processes, twice', together, dict(size=2, again=True),
                  validate=2))
    T.append(Task('folders of the conversion', convert_dirs,
                  dict(most=3 if q else 5), validate=3))
    T.append(Task('decorator', decorated, validate=2))
    return T
