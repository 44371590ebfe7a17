#!/usr/bin/env python3
"""Entry point:  check.py C03            run the check (VERIF_SEED, VERIF_TIER)
                 check.py --replay FILE  re-execute a replay file (exit 1 if the violation reproduces)
                 check.py --all          every registered check
                 check.py --setup        sanity check of the framework"""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True


def main(argv):
    from simkit import runner
    if argv[0] == '--worker':
        runner.worker_main(argv[1:])
        return 0
    if argv[0] == '--ref':
        from checks import ref
        ref.serve()
        return 0
    if argv[0] == '--minimise':
        runner.minimise_main(argv[1:])
        return 0
    if argv[0] == '--digest':
        runner.digest_main(argv[1:])
        return 0
    if argv[0] == '--replay':
        if not sys.executable.startswith('/opt/venv'):
            os.execve(runner.PY, [runner.PY, os.path.abspath(__file__)] + argv, runner.worker_env())
        ok, v = runner.replay(argv[1])
        print('reproduced' if ok else 'NOT reproduced', v)
        return 1 if ok else 0
    if argv[0] == '--setup':
        import subprocess
        return subprocess.call([runner.PY, '-c', 'import numpy, scipy, resampy, soundfile, h5py; print("ok")'],
                               env=runner.worker_env())
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    if argv[0] == '--all':
        from checks import REGISTRY
        rc = 0
        for c in sorted(REGISTRY):
            r = runner.run_check(c, tier, seed)
            rc = max(rc, r)
        return rc
    return runner.run_check(argv[0], tier, seed)


if __name__ == '__main__':
    try:
        sys.exit(main(sys.argv[1:]))
    except SystemExit:
        raise
    except BaseException:
        import traceback
        traceback.print_exc()
        sys.exit(2)
