"""A message passing interface for all ranks in one process.

Every rank runs the repository's code in a thread of its own, one at a time.
Ranks run until they block; the only choice left to the schedule is whose
message a receive from any source gets, and that choice is an input of the
check (sends never depend on the schedule, so letting the other ranks run as
far as they can before a receive is decided loses no order)."""
import copy
import threading


class Killed(BaseException):
    pass


class NotModelled(Exception):
    """the code uses the interface in a way this file does not know"""


def refusal(cls, msg):
    """an error that the real interface raises as well"""
    ex = cls('MPI: ' + msg)
    ex.sx_blame = 'repo'
    return ex


class Bad(Exception):
    """for the rank to raise"""


class Status:
    def __init__(self):
        self.source = -1
        self.tag = -1
        self.error = 0

    def Get_source(self):
        return self.source

    def Get_tag(self):
        return self.tag


class Request:
    def __init__(self, done):
        self.done = done

    def wait(self, status=None):
        return self.done(status)

    Wait = wait


class Mpi:
    """stands for the module mpi4py.MPI"""
    ANY_SOURCE = -1
    ANY_TAG = -1
    Status = Status

    def __init__(self, world):
        self.COMM_WORLD = Comm(world)

    def Init(self):
        pass

    def Finalize(self):
        pass

    def Is_initialized(self):
        return True


class Comm:
    def __init__(self, world):
        self.world = world

    def __getattr__(self, k):
        raise NotModelled('comm.' + k)

    @property
    def rank(self):
        return self.world.me()

    @property
    def size(self):
        return self.world.size

    name = 'COMM_WORLD'

    def Get_rank(self):
        return self.rank

    def Get_size(self):
        return self.size

    def send(self, obj, dest, tag=0):
        self.world.send(obj, dest, tag)

    ssend = bsend = send

    def isend(self, obj, dest, tag=0):
        self.send(obj, dest, tag)
        return Request(lambda status: None)

    def recv(self, buf=None, source=-1, tag=-1, status=None):
        return self.world.block(('recv', int(source), int(tag), status))

    def irecv(self, buf=None, source=-1, tag=-1):
        return Request(lambda status: self.recv(None, source, tag, status))

    def barrier(self):
        self.world.block(('barrier', None, 0))

    Barrier = barrier

    def scatter(self, sendobj=None, root=0):
        return self.world.block(('scatter', sendobj, root))

    def gather(self, sendobj=None, root=0):
        return self.world.block(('gather', sendobj, root))

    def allgather(self, sendobj=None):
        return self.world.block(('allgather', sendobj, 0))

    def bcast(self, obj=None, root=0):
        return self.world.block(('bcast', obj, root))


def clone(x):
    """what the receiver gets: a copy"""
    try:
        return copy.deepcopy(x)
    except Exception:
        return x


class World:
    def __init__(self, env, size, steps=5000, orders=0):
        self.orders = orders    # so many choices of who starts first
        self.nstart = 0
        self.env, self.size, self.steps = env, size, steps
        self.mpi = Mpi(self)
        self.comm = self.mpi.COMM_WORLD
        self.box = [[] for _ in range(size)]       # (source, tag, object)
        self.wish = [None] * size                  # what a rank waits for
        self.reply = [None] * size
        self.go = [threading.Event() for _ in range(size)]
        self.back = threading.Event()
        self.done = [False] * size
        self.result = [None] * size
        self.error = [None] * size
        self.fatal = None
        self.local = threading.local()
        self.deadlock = False
        self.endless = False
        self.nsrc = 0
        self.killing = False

    def me(self):
        return getattr(self.local, 'rank', 0)

    # -- called by the ranks
    def send(self, obj, dest, tag):
        dest, tag = int(dest), int(tag)
        if not 0 <= dest < self.size:
            raise refusal(RuntimeError, 'invalid rank %d' % dest)
        self.box[dest].append((self.me(), tag, clone(obj)))
        self.count()

    def count(self):
        if self.killing:
            raise Killed()
        self.steps -= 1
        if self.steps < 0:
            self.endless = True
            raise Killed()

    def block(self, wish):
        self.count()
        r = self.me()
        self.wish[r] = wish
        self.pause(r)
        self.wish[r] = None
        if isinstance(self.reply[r], Bad):
            raise refusal(ValueError, str(self.reply[r]))
        return self.reply[r]

    def pause(self, r):
        self.back.set()
        self.go[r].wait()
        self.go[r].clear()
        if self.killing:
            raise Killed()

    # -- scheduler
    def match(self, r):
        """sources a receive of rank r can take a message from"""
        _, src, tag, _ = self.wish[r]
        out = []
        for s, t, _ in self.box[r]:
            if src in (-1, s) and tag in (-1, t) and s not in out:
                out.append(s)
        return out

    def deliver(self, r, src):
        _, _, tag, status = self.wish[r]
        for i, (s, t, o) in enumerate(self.box[r]):
            if s == src and tag in (-1, t):
                del self.box[r][i]
                if status is not None:
                    status.source, status.tag = s, t
                self.reply[r] = o
                return
        raise AssertionError

    def resume(self, r):
        self.back.clear()
        self.go[r].set()
        self.back.wait()

    def thread(self, r, f):
        self.local.rank = r
        self.go[r].wait()
        self.go[r].clear()
        try:
            if not self.killing:
                self.result[r] = f(r)
        except Killed:
            pass
        except Exception as ex:
            self.error[r] = ex
        except BaseException as ex:     # of the engine: not an error here
            self.fatal = ex
        self.done[r] = True
        self.back.set()

    def collective(self):
        """all ranks wait for the same collective operation"""
        ws = [self.wish[r] for r in range(self.size)]
        if any(d for d in self.done) or any(
                w is None or w[0] == 'recv' for w in ws):
            return False
        k, _, root = ws[0]
        if any(w[0] != k or w[2] != root for w in ws):
            return False
        objs = [w[1] for w in ws]
        if k == 'scatter':
            if objs[root] is None or len(objs[root]) != self.size:
                self.reply[root] = Bad('expecting %d items' % self.size)
                self.resume(root)
                return False
            self.reply = [clone(x) for x in objs[root]]
        elif k == 'gather':
            self.reply = [clone(objs) if r == root else None
                          for r in range(self.size)]
        elif k == 'allgather':
            self.reply = [clone(objs) for r in range(self.size)]
        elif k == 'bcast':
            self.reply = [objs[r] if r == root else clone(objs[root])
                          for r in range(self.size)]
        else:
            self.reply = [None] * self.size
        return True

    def run(self, f):
        """f(rank) on all ranks, to the end or a deadlock"""
        ts = [threading.Thread(target=self.thread, args=(r, f), daemon=True)
              for r in range(self.size)]
        for t in ts:
            t.start()
        try:
            self.schedule()
        finally:
            self.killing = True
            for r in range(self.size):
                if not self.done[r]:
                    self.resume(r)
            for t in ts:
                t.join()
        if self.fatal is not None:
            raise self.fatal
        for ex in self.error:
            if isinstance(ex, NotModelled):
                raise self.env.mismatch(str(ex))

    def schedule(self):
        start = list(range(self.size))
        while not all(self.done):
            if self.fatal is not None or self.endless or any(
                    isinstance(e, NotModelled) for e in self.error):
                return
            if start:
                k = 0
                if self.nstart < self.orders and len(start) > 1:
                    self.nstart += 1
                    k = self.env.choice('start %d' % self.nstart,
                                        list(range(len(start))))
                self.resume(start.pop(k))
                continue
            r = next((r for r in range(self.size) if not self.done[r] and
                      self.wish[r][0] == 'recv' and self.wish[r][1] != -1 and
                      self.match(r)), None)
            if r is not None:
                self.deliver(r, self.wish[r][1])
                self.resume(r)
                continue
            some = [r for r in range(self.size) if not self.done[r] and
                    self.wish[r][0] == 'recv' and self.match(r)]
            if some:
                r = some[0]
                if len(some) > 1:
                    self.nsrc += 1
                    r = self.env.choice('receiver %d' % self.nsrc, some)
                self.nsrc += 1
                self.deliver(r, self.env.choice('source %d' % self.nsrc,
                                                self.match(r)))
                self.resume(r)
                continue
            if self.collective():
                start = list(range(self.size))
                continue
            self.deadlock = not all(self.done)
            return

    def ok(self, label=''):
        """checks every run has to pass"""
        env = self.env
        for ex in self.error:
            if ex is not None:
                raise ex
        env.check(label + 'no rank waits for ever', not self.deadlock and
                  not self.endless)
        env.check(label + 'no message is left', self.deadlock or
                  self.endless or not any(self.box))
