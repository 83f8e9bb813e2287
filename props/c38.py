"""C38: every process of a run keeps its own log, at the chosen level."""
import io
import logging
import os
import sys
import types

from sx.runner import Task
from props.mpi import World

ID = 'C38'
ASSUMPTIONS = ['every process has a logging state of its own',
               'messages are buffered by MPI and do not overtake each other '
               'between two processes']
OUTSIDE = ('a log file inside the output directory; names of levels other '
           'than the five standard ones; a log file that cannot be opened')
LEVELS = ['DEBUG', 'INFO', 'WARNING', 'ERROR', 'CRITICAL']
MODULES = ['all_multipliers', 'terrain.terrain_mult',
           'shielding.shield_mult', 'topographic.topo_mult',
           'utilities.nctools', 'utilities.convert', 'utilities.mpi_runner',
           'utilities.files', 'utilities.value_lookup']


class Terminal(io.StringIO):
    def __init__(self, who, tty):
        super().__init__()
        self.who, self.tty, self.out = who, tty, {}

    def isatty(self):
        return self.tty

    def write(self, s):
        self.out[self.who()] = self.out.get(self.who(), '') + s
        return len(s)


def own_logging(env, who):
    """the root logger has handlers and a level for each process"""
    store = {}
    root = logging.root

    def mine():
        return store.setdefault(who(), dict(handlers=[], level=30))

    class Root(type(root)):
        @property
        def handlers(self):
            return mine()['handlers']

        @handlers.setter
        def handlers(self, v):
            mine()['handlers'] = v

        @property
        def level(self):
            return mine()['level']

        @level.setter
        def level(self, v):
            mine()['level'] = v
    old = type(root)
    off = root.manager.disable
    env.patch(logging.Logger, 'isEnabledFor',
              lambda self, n: not self.disabled and
              n > self.manager.disable and n >= self.getEffectiveLevel())
    root.__class__ = Root
    logging.disable(logging.NOTSET)

    def back():
        logging.disable(off)
        root.__class__ = old
        for s in store.values():
            for h in s['handlers']:
                h.close()
        for x in [root] + list(root.manager.loggerDict.values()):
            getattr(x, '_cache', {}).clear()
    env.undo.append(back)


def loggers(mods):
    """the loggers of the modules of the calculation"""
    out = [logging.root]
    for m in mods:
        for v in list(vars(m).values()):
            if isinstance(v, logging.Logger) and v not in out:
                out.append(v)
    return out


def rival(env, logdir):
    """other processes create the directory (or the first part of it) just
    before one of this run does"""
    what = env.choice('another process creates', ['nothing', 'all', 'part'])
    if what == 'nothing':
        return
    part = logdir if what == 'all' else os.path.dirname(logdir)
    mkdir = os.mkdir
    busy = []

    def late(path, *a, **k):
        if not busy and os.path.abspath(os.fspath(path)) in (part, logdir):
            busy.append(path)
            os.makedirs(part, exist_ok=True)
        return mkdir(path, *a, **k)
    env.patch(os, 'mkdir', late)


def files(top):
    return {os.path.join(d, f) for d, _, fs in os.walk(top) for f in fs}


def log_run(env, size, ntiles, race=False, blocked=False, option='flag',
            plain=False):
    am = env.load('all_multipliers')
    mods = [env.load(m) for m in MODULES]
    gt = (148.0, 0.5, 0.0, -20.0, 0.0, -0.5)
    z = [[0.0] * (2 * ntiles)] * 2
    dem = env.raster('in/dem.img', env.const(z, 'float32'), gt,
                     dtype='float32')
    lcv = env.raster('in/lc.img', env.const(z, 'int32'), gt, dtype='int32')
    level = env.choice('level', LEVELS if not plain else ['INFO', 'DEBUG'])
    verbose = env.fix(env.bool('verbose'))
    flag = verbose and option == 'flag'
    tty = env.fix(env.bool('standard output is a terminal')) \
        if not (race or blocked or plain) else True
    work = env.mkdir('work')
    os.chdir(work)
    rel = 'log/a/my.log' if race or plain else env.choice('log file', ['log/a/my.log', 'my.log',
                                  '../log/my.run.log', '{}/l/m.log'])
    rel = rel.format(env.tmp)
    path = os.path.abspath(rel)
    logdir = os.path.dirname(path)
    if blocked:
        # a file stands where the directory should be
        env.assume(rel != 'my.log')
        with open(os.path.dirname(logdir) if rel == 'log/a/my.log'
                  else logdir, 'w') as f:
            f.write('file')
        path = os.path.join(work, 'multipliers.log')
    own = [path + ('_%d' % r if r else '') for r in range(size)]
    old = not (race or blocked or plain) and env.fix(env.bool('an older log'))
    if old:
        os.makedirs(logdir, exist_ok=True)
        for p in own:
            with open(p, 'w') as f:
                f.write('an older message\n')
    conf = env.config({
        'inputValues': dict(root=env.tmp, upwind_length='0.25',
                            terrain_data=lcv, dem_data=dem,
                            terrain_table='none.csv'),
        'Output': dict(output_dir=os.path.join(env.tmp, 'res')),
        'Logging': dict(LogFile=rel, LogLevel=level,
                        Verbose=str(verbose and not flag))}, choose=False)
    env.patch(sys, 'argv', ['all_multipliers.py', '-c', conf] + (
        ['-v'] if flag else []))
    import atexit
    env.patch(atexit, 'register', lambda f, *a, **k: f)
    w = World(env, size)
    if size > 1:
        m = types.ModuleType('mpi4py')
        m.MPI = w.mpi
        env.provide('mpi4py', m)
    out, err = Terminal(w.me, tty), Terminal(w.me, tty)
    own_logging(env, w.me)
    if race:
        rival(env, logdir)
    run = env.fn(am, 'run')
    before = files(env.tmp)
    ls = loggers(mods)

    def one(rank):
        run()
        for k, x in enumerate(ls):
            for v in LEVELS:
                x.log(getattr(logging, v), '<%d.%d.%s>', rank, k, v)
        for h in logging.root.handlers:
            h.flush()
        return True
    streams = sys.stdout, sys.stderr
    sys.stdout, sys.stderr = out, err
    try:
        w.run(one)
    finally:
        sys.stdout, sys.stderr = streams
    w.ok()
    env.check('all return', all(w.result))
    res = os.path.join(env.tmp, 'res')
    logs = [p for p in files(env.tmp) if p not in before and
            not p.startswith(res + os.sep)] + [p for p in own if old]
    env.check('one log for each process, where it is configured',
              {os.path.realpath(p) for p in logs} ==
              {os.path.realpath(p) for p in own})
    n = getattr(logging, level)

    def told(text, rank):
        return all(text.count('<%d.%d.%s>' % (rank, k, v)) == (
            1 if getattr(logging, v) >= n else 0)
            for k in range(len(ls)) for v in LEVELS)

    def others(text, rank):
        return any('<%d.' % r in text for r in range(size) if r != rank)
    for r, p in enumerate(own):
        text = ''
        if os.path.exists(p):
            with open(p) as f:
                text = f.read()
        env.check('process %d: its messages from this level on, once' % r,
                  told(text, r))
        env.check('process %d: no messages of other processes' % r,
                  not others(text, r))
        env.check('process %d: the older log is replaced' % r,
                  'an older message' not in text)
        if n <= logging.INFO and r == 0:
            env.check('the messages of the run itself',
                      'tile' in text.lower())
        o = out.out.get(r, '')
        show = verbose and tty and r == 0
        env.check('process %d: messages on the terminal' % r,
                  told(o, r) if show else '<' not in o)
        env.check('process %d: nothing on standard error' % r,
                  '<' not in err.out.get(r, ''))
    env.observe('n', len(logs))


def tasks(tier):
    out = []
    for size, nt in [(1, 1), (2, 1), (3, 2)] + (
            [(4, 3)] if tier == 'thorough' else []):
        for opt in ('flag', 'file'):
            out.append(Task('%d processes, verbose by %s' % (size, opt),
                            log_run, dict(size=size, ntiles=nt, option=opt),
                            bounds='%d processes, %d tiles; five levels; '
                            'four places' % (size, nt)))
    out.append(Task('twelve processes', log_run, dict(
        size=12, ntiles=2, plain=True), bounds='twelve processes, two tiles; '
        'two levels'))
    for size in (1, 2):
        out.append(Task('%d processes, started with others' % size, log_run,
                        dict(size=size, ntiles=1, race=True),
                        bounds='%d processes; the directory appears while '
                        'it is created' % size))
        out.append(Task('%d processes, no directory possible' % size,
                        log_run, dict(size=size, ntiles=1, blocked=True),
                        bounds='%d processes; a file in the way' % size))
    return out
