"""Processes that work at the same time, each with modules of its own.

One of them runs at a time; it can be stopped wherever it opens, creates,
writes, lists or removes a file.  A schedule says who runs up to which of
these events."""
import glob
import os
import shutil
import threading

OS = [(os, n) for n in ('remove', 'unlink', 'rename', 'replace', 'makedirs',
                        'mkdir', 'rmdir', 'listdir', 'scandir')] + [
    (shutil, n) for n in ('rmtree', 'move', 'copy', 'copyfile')] + [
    (glob, n) for n in ('glob', 'iglob')]
GDAL = ('Open', 'OpenEx', 'ReprojectImage', 'Translate', 'Warp', 'BuildVRT',
        'Unlink')


class Killed(BaseException):
    pass


class Procs:
    def __init__(self, env):
        self.env = env
        self.local = threading.local()
        self.killing = False
        self.fatal = None
        self.procs = []
        self.depth = 0
        for m, n in OS:
            env.patch(m, n, self.wrap(getattr(m, n)))
        if env.sym:
            from sx import fakes
            gdal, driver = env.g.gdal, fakes.FakeDriver
            nc = env.world.stubs['netCDF4']
        else:
            import netCDF4 as nc
            from osgeo import gdal
            driver = gdal.Driver
        for n in GDAL:
            if n in vars(gdal):     # (the model has not all of them)
                env.patch(gdal, n, self.wrap(getattr(gdal, n)))
        for n in ('Create', 'CreateCopy', 'Delete'):
            env.patch(driver, n, self.wrap(getattr(driver, n)))
        event = self.event

        class Dataset(nc.Dataset):
            def __init__(self, *a, **k):
                event()
                super().__init__(*a, **k)

            def close(self):
                event()
                return super().close()
        env.patch(nc, 'Dataset', Dataset)

    def wrap(self, f):
        def g(*a, **k):
            self.event()
            p = getattr(self.local, 'proc', None)
            if p is None:
                return f(*a, **k)
            p.depth += 1            # what it does inside is one step
            try:
                return f(*a, **k)
            finally:
                p.depth -= 1
        return g

    def event(self):
        p = getattr(self.local, 'proc', None)
        if p is None or p.depth:
            return
        if self.killing:
            raise Killed()
        p.count += 1
        if p.stop is not None and p.count > p.stop:
            p.pause()

    def start(self, f):
        p = Proc(self, f)
        self.procs.append(p)
        return p

    def finish(self):
        self.killing = True
        for p in self.procs:
            if not p.done:
                p.run()
        self.killing = False
        self.procs = []
        if self.fatal is not None:
            raise self.fatal

    def alone(self, f):
        """number of events"""
        p = self.start(f)
        p.run()
        self.finish()
        if p.error is not None:
            raise p.error
        return p.count

    def together(self, fs, schedule):
        """schedule: (process, number of events after which it stops)"""
        ps = [self.start(f) for f in fs]
        for k, n in schedule:
            if not ps[k].done and self.fatal is None:
                ps[k].run(n)
        self.finish()
        return ps


class Proc:
    def __init__(self, procs, f):
        self.procs, self.f = procs, f
        self.count = self.depth = 0
        self.stop = None
        self.done = False
        self.error = None
        self.thread = None
        self.go, self.back = threading.Event(), threading.Event()
        self.own = None
        self.cwd = os.getcwd()

    def run(self, stop=None):
        """up to the event after the first `stop` ones"""
        env = self.procs.env
        self.stop = stop
        outer, cwd = env.modules(), os.getcwd()
        env.set_modules(self.own or {})
        os.chdir(self.cwd)
        self.back.clear()
        if self.thread is None:
            if self.procs.killing:
                self.done = True
                return
            self.thread = threading.Thread(target=self.work, daemon=True)
            self.thread.start()
        else:
            self.go.set()
        self.back.wait()
        self.own = env.modules()
        self.cwd = os.getcwd()
        os.chdir(cwd)
        env.set_modules(outer)
        if self.done:
            self.thread.join()

    def work(self):
        self.procs.local.proc = self
        try:
            self.depth = 1          # to get ready is no part of the race
            f = self.f()
            self.depth = 0
            if self.stop == 0:
                self.pause()
            f()
        except Killed:
            pass
        except Exception as ex:
            self.error = ex
        except BaseException as ex:     # of the engine
            self.procs.fatal = ex
        self.done = True
        self.back.set()

    def pause(self):
        self.back.set()
        self.go.wait()
        self.go.clear()
        if self.procs.killing:
            raise Killed()
