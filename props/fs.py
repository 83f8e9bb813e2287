"""Watching what the code does to the file system."""
import os
import shutil

DELETE = [(shutil, 'rmtree'), (os, 'remove'), (os, 'unlink'), (os, 'rmdir'),
          (os, 'removedirs')]
CREATE = [(os, 'mkdir'), (os, 'makedirs')]
MOVE = [(os, 'rename'), (os, 'replace'), (os, 'renames'), (shutil, 'move')]


def entry(path):
    """the directory entry a path names: a last link is not followed"""
    p = os.path.abspath(path)
    return os.path.join(os.path.realpath(os.path.dirname(p)),
                        os.path.basename(p))


class Outside(OSError):
    sx_blame = 'repo'


class Watch:
    """records deletions and creations; refuses those outside the scratch
    directory"""

    def __init__(self, env, who=lambda: 0):
        self.env, self.who = env, who
        self.log = []           # (who, kind, path)
        self.depth = 0
        self.root = os.path.realpath(env.tmp)
        for kind, fs in (('delete', DELETE), ('create', CREATE),
                         ('move', MOVE)):
            for m, n in fs:
                env.patch(m, n, self.wrap(kind, getattr(m, n)))

    def wrap(self, kind, f):
        def g(path, *a, **k):
            n = 2 if kind == 'move' else 1
            ps = [entry(os.fspath(p)) if not isinstance(p, int)
                  else None for p in ((path,) + a)[:n]]
            if k.get('dir_fd') is not None or None in ps or self.depth:
                return f(path, *a, **k)     # within an operation seen before
            for p in ps:
                self.log.append((self.who(), kind, p))
                if not p.startswith(self.root + os.sep):
                    raise Outside('%s of %s' % (kind, p))
            self.depth += 1
            try:
                return f(path, *a, **k)
            except OSError as ex:
                ex.sx_blame = 'repo'
                raise
            finally:
                self.depth -= 1
        return g

    def by(self, who):
        return [x for x in self.log if x[0] == who]


def tree(d):
    """what is below d: relative path -> contents, None for directories,
    the target for links"""
    out = {}
    for p, ds, fs in os.walk(d):
        for f in fs + ds:
            q = os.path.join(p, f)
            if os.path.islink(q):
                out[os.path.relpath(q, d)] = ('link', os.readlink(q))
                continue
            if f in ds:
                continue
            with open(q, 'rb') as fd:
                out[os.path.relpath(q, d)] = fd.read()
        for x in ds:
            out.setdefault(os.path.relpath(os.path.join(p, x), d), None)
    return out
