"""Entry point of every check: run_check.py <property id> [--tier ...]."""
import os
import sys
import time

if 'OMP_NUM_THREADS' not in os.environ:
    # one thread per process (the tasks are processes), fixed hashing
    os.environ.update(OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1',
                      NUMEXPR_MAX_THREADS='1', NUMEXPR_NUM_THREADS='1',
                      MKL_NUM_THREADS='1', PYTHONHASHSEED='0',
                      PYTHONDONTWRITEBYTECODE='1')
    os.execv(sys.executable, [sys.executable] + sys.argv)

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from sx import runner  # noqa: E402

def selftest():
    """solvers answer, a false claim is refuted, a true one is not"""
    from sx import core
    import z3
    x = z3.Int('x')
    assert core.check_sat([x * x == 49, x > 0], 5000)[0] == 'sat'
    assert core.check_sat([x > 0, x < 1], 5000)[0] == 'unsat'
    for bad in (True, False):
        def claim(env):
            v = env.int('v', 0, 100)
            env.check('claim', env.Not(v * 3 == (90 if bad else 91)))
        r = runner.run_task(runner.Task('t', claim, validate=0), 'quick', 1,
                            time.time() + 60)
        assert bool(r['violations']) == bad, r
    print('selftest ok')
    return 0


if __name__ == '__main__':
    if sys.argv[1:] == ['--selftest']:
        sys.exit(selftest())
    sys.exit(runner.main(sys.argv[1:]))
