"""Re-execute one saved case against /repo, without Hypothesis.

  replay.py FILE            build what is needed, run the case (exit 0: holds, 1: violated)
  replay.py --inner FILE    same, inside an already prepared environment (used by run.py)
"""
import importlib
import json
import os
import resource
import subprocess
import sys
import tempfile
import traceback


def inner(path):
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    sys.setrecursionlimit(4000)
    rep = json.load(open(path))
    import core
    chk = importlib.import_module('checks.' + rep['property'].lower())
    try:
        chk.run_case(rep['case'], core.Stats())
    except core.HarnessError:
        traceback.print_exc()
        return 3
    except Exception as e:
        print('violated: %s: %s' % (type(e).__name__, e))
        if '-v' in sys.argv:
            traceback.print_exc()
        return 1
    print('holds')
    return 0


if __name__ == '__main__':
    if sys.argv[1] == '--inner':
        rc = inner(sys.argv[2])
        sys.stdout.flush()
        os._exit(rc)
    import run
    rep = json.load(open(sys.argv[1]))
    with tempfile.TemporaryDirectory(prefix='pyrs-replay-') as tmp:
        builds = run.build_all([rep['config']], tmp)
        p = run.replay_process(rep, tmp, builds, extra=sys.argv[2:])
        out, err = p.communicate()
        print(out, err)
        sys.exit(1 if p.returncode else 0)
