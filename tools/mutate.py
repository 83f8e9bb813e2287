"""Development aid: run checks against an edited scratch copy of /repo.

mutate.py FILE OLD NEW [FILE OLD NEW ...] -- CHECK...
The copy lives below /tmp and is removed; /repo is never touched."""
import os
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def main():
    a = sys.argv[1:]
    i = a.index('--')
    ed, checks = a[:i], a[i + 1:]
    d = tempfile.mkdtemp(prefix='mut_')
    try:
        r = os.path.join(d, 'repo')
        shutil.copytree('/repo', r, ignore=shutil.ignore_patterns(
            '.git', '__pycache__', 'docs'))
        for f, old, new in zip(ed[::3], ed[1::3], ed[2::3]):
            p = os.path.join(r, f)
            s = open(p).read()
            if old not in s:
                sys.exit('no such text in %s: %r' % (f, old))
            open(p, 'w').write(s.replace(old, new, 1))
        for c in checks:
            if c == 'tests':
                out = subprocess.run(
                    ['/opt/venv/bin/python', '-m', 'pytest', '-q', '-x',
                     '-p', 'no:cacheprovider', '--deselect',
                     'tests/test_clip_dataset.py::TestClip::test_clip',
                     'tests'], cwd=r, capture_output=True, text=True,
                    env=dict(os.environ, PYTHONDONTWRITEBYTECODE='1',
                             PYTHONPATH=':'.join(os.path.join(r, x) for x in (
                                 '', 'utilities', 'topographic', 'tests',
                                 'tests/test_topographic'))))
                print('tests:', out.stdout.strip().splitlines()[-1])
                continue
            out = subprocess.run(
                ['/opt/venv/bin/python', os.path.join(VERIF, 'run_check.py'),
                 c], cwd=VERIF, capture_output=True, text=True,
                env=dict(os.environ, VERIF_REPO=r,
                         SX_EVID=os.path.join(d, 'ev')))
            print(c, '->', out.returncode)
            for ln in out.stdout.splitlines()[:12]:
                print('   ', ln[:300])
            if out.returncode not in (0, 1):
                print(out.stderr[-1500:])
    finally:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == '__main__':
    main()
