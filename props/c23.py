"""C23: distribution of the tiles over the processes."""
from sx.runner import Task
from props.mpi import Mpi, World
from props.tiles import (check_computed, leftovers, make_tiles, near,
                         rasters, stub_stages)

ID = 'C23'
ASSUMPTIONS = ['messages are buffered by MPI (they are file names), arrive, '
               'and do not overtake each other between two processes',
               'terrain, shielding and topographic calculation replaced by a '
               'record of the call']
OUTSIDE = 'more processes and tiles than stated; a process that dies'


def dispatch(env, size, ntiles, callback=False):
    am = env.load('all_multipliers')
    mul = env.fn(am, 'Multipliers')
    n = env.choice('tiles', list(range(ntiles[0], ntiles[1] + 1)))
    dem, lcv = rasters(env, n)
    am.output_folder = env.mkdir('out')
    w = World(env, size)
    am.MPI, am.comm = w.mpi, w.comm
    seen, told = [], []
    stub_stages(env, am, seen, w.me)
    tiles = make_tiles(n)

    def one(rank):
        m = mul(lcv, dem)
        kw = dict(progress_callback=told.append) if callback else {}
        m.parallelise_on_tiles([list(t) for t in tiles], **kw)
        return True
    w.run(one)
    w.ok()
    env.check('all return', all(w.result))
    check_computed(env, seen, tiles)
    env.check('no file is left', leftovers(env, 'out') == [])
    if callback:
        env.check('progress stays within the tiles',
                  all(0 <= t <= n for t in told))
    env.observe('ranks', len({s['rank'] for s in seen}))


def flat(x):
    """all items of a message"""
    if isinstance(x, dict):
        x = list(x.values())
    if isinstance(x, (list, tuple)):
        return [z for y in x for z in flat(y)]
    return [x]


class Endless(Exception):
    pass


class Half:
    """communicator for one side of the conversation"""

    def __init__(self, env, size, rank):
        self.env, self.size, self.rank = env, size, rank

    def Get_rank(self):
        return self.rank

    def Get_size(self):
        return self.size

    def __getattr__(self, k):
        raise self.env.mismatch('comm.' + k)


class Workers(Half):
    """what the master sees: workers that answer each piece of work once, in
    any order, and end when they get None (the check 'worker' shows that
    they do). The source of every answer stays symbolic."""

    def __init__(self, env, size, limit, tiles):
        super().__init__(env, size, 0)
        self.limit, self.names = limit, [t[0] for t in tiles]
        self.pending = [0] * size
        self.stopped = [False] * size
        self.sent = []          # (object, tag)
        self.n = 0

    def send(self, obj, dest, tag=0):
        env = self.env
        if obj is not None and len([x for x in flat(obj) if isinstance(
                x, str) and x in self.names]) != 1:
            raise env.mismatch('another kind of message')
        env.check('message to a worker', env.And(dest >= 1,
                                                 dest < self.size))
        for d in range(1, self.size):
            hit = dest == d
            env.check('none after the stop', env.Not(
                env.And(hit, self.stopped[d])))
            if obj is None:
                self.stopped[d] = env.Or(self.stopped[d], hit)
            else:
                self.pending[d] = env.If(hit, self.pending[d] + 1,
                                         self.pending[d])
        self.sent.append((obj, tag))

    def recv(self, buf=None, source=-1, tag=-1, status=None):
        env = self.env
        if source != -1:
            raise env.mismatch('receives from one rank')
        self.n += 1
        env.check('the master ends', self.n <= self.limit)
        if self.n > self.limit:
            raise Endless()
        env.check('an answer can come', env.Or(*[
            p > 0 for p in self.pending[1:]]))
        d = 1 if self.size == 2 else env.int('source %d' % self.n, 1,
                                             self.size - 1)
        env.assume(env.Or(*[env.And(d == k, self.pending[k] > 0)
                            for k in range(1, self.size)]))
        for k in range(1, self.size):
            self.pending[k] = env.If(d == k, self.pending[k] - 1,
                                     self.pending[k])
        if status is not None:
            status.source, status.tag = d, tag
        return None

    def run(self, am, mul, lcv, dem, tiles):
        """the master's side -> has it come to an end"""
        am.MPI, am.comm = Mpi(None), self
        try:
            mul(lcv, dem).parallelise_on_tiles([list(t) for t in tiles])
        except Endless:
            return False
        return True


def master(env, size, n):
    """all orders of completion at once"""
    am = env.load('all_multipliers')
    mul = env.fn(am, 'Multipliers')
    dem, lcv = rasters(env, n)
    am.output_folder = env.mkdir('out')
    tiles = make_tiles(n)
    c = Workers(env, size, n + size, tiles)
    seen = []
    stub_stages(env, am, seen)
    probe(env, am, mul, lcv, dem, tiles[:1])
    del seen[:]
    if not c.run(am, mul, lcv, dem, tiles):
        return
    for d in range(1, size):
        env.check('worker %d is told to stop' % d, c.stopped[d])
        env.check('answers of %d are received' % d, c.pending[d] == 0)
    work = [flat(m) for m, _ in c.sent if m is not None]
    got = sorted(x for m in work for x in m if x in c.names)
    if seen:
        return          # the master computes as well: left to the full runs
    env.check('each tile handed out once', got == sorted(c.names))
    for m in work:
        t = [t for t in tiles if t[0] in m][0]
        for f in [x for x in m if isinstance(x, str) and x != t[0]]:
            i = env.raster_info(f)
            env.check('own DEM tile', i is not None and near(
                (i['gt'][0], i['gt'][3], i['gt'][0] + i['w'] * i['gt'][1],
                 i['gt'][3] + i['h'] * i['gt'][5]), t[1]))


class Script(Half):
    """what a worker sees: messages as the master sends them"""

    def __init__(self, env, size, rank, todo):
        super().__init__(env, size, rank)
        self.todo, self.n0 = todo, len(todo)
        self.answers = 0

    def recv(self, buf=None, source=-1, tag=-1, status=None):
        if not self.todo or self.answers != self.n0 - len(self.todo):
            raise self.env.mismatch('another protocol')
        m, t = self.todo.pop(0)
        if tag not in (-1, t):
            raise self.env.mismatch('waits for another tag')
        if status is not None:
            status.source, status.tag = 0, t
        return m

    def send(self, obj, dest, tag=0):
        self.answers += 1
        if dest != 0 or self.answers != self.n0 - len(self.todo):
            raise self.env.mismatch('another protocol')


def probe(env, am, mul, lcv, dem, tiles, size=2, rank=1):
    """one worker, given what the master sends to a single worker; anything
    but one answer for each message but the last is not for these checks
    (the full runs judge it)"""
    m = Workers(env, 2, len(tiles) + 2, tiles)
    checks = env.check
    env.check = lambda *a: None
    try:
        if not m.run(am, mul, lcv, dem, tiles):
            raise env.mismatch('another protocol')
    finally:
        env.check = checks
    c = Script(env, size, rank, list(m.sent))
    am.comm = c
    mul(lcv, dem).parallelise_on_tiles([list(t) for t in tiles])
    if c.todo or c.answers != len(tiles):
        raise env.mismatch('another protocol')


def worker(env, most):
    """any number of tiles, then the stop"""
    am = env.load('all_multipliers')
    mul = env.fn(am, 'Multipliers')
    n = int(env.int('tiles', 0, most))
    size = int(env.int('size', 2, 5))
    rank = env.int('rank', 1, 4)
    env.assume(rank < size)
    dem, lcv = rasters(env, most)
    am.output_folder = env.mkdir('out')
    tiles = make_tiles(n)
    seen = []
    stub_stages(env, am, seen)
    probe(env, am, mul, lcv, dem, tiles, size, int(rank))
    check_computed(env, seen, tiles)
    env.check('no file is left', leftovers(env, 'out') == [])


def tasks(tier):
    q = tier == 'quick'
    T = [Task('serial', dispatch, dict(size=1, ntiles=(0, 4)), validate=2),
         Task('serial, progress', dispatch, dict(size=1, ntiles=(2, 2),
                                                 callback=True))]
    for s, n in [(2, (0, 5)), (3, (0, 3)), (3, (4, 4)), (4, (0, 3)),
                 (4, (4, 4)), (5, (0, 2))] + (
            [] if q else [(2, (6, 12)), (3, (5, 6)), (3, (7, 7)), (4, (5, 5)),
                          (5, (3, 4)), (6, (0, 3))]):
        T.append(Task('%d processes, %d to %d tiles' % ((s,) + n), dispatch,
                      dict(size=s, ntiles=n), validate=2,
                      bounds='every order in which results arrive'))
    T.append(Task('progress', dispatch, dict(size=3, ntiles=(1, 3),
                                             callback=True), validate=2))
    for s, n in [(2, 4), (3, 1), (3, 0), (3, 7), (4, 2), (5, 12)] + (
            [] if q else [(4, 12), (6, 20), (8, 5), (9, 14)]):
        T.append(Task('master with %d workers, %d tiles' % (s - 1, n),
                      master, dict(size=s, n=n), validate=2,
                      bounds='every order in which answers arrive'))
    T.append(Task('worker', worker, dict(most=4 if q else 9), validate=2))
    return T
