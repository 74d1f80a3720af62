"""A second interpreter with other environment settings, driven by one-line JSON requests."""
import importlib
import json
import os
import subprocess
import sys
from core import HarnessError


class Helper:
    def __init__(self, module, env):
        e = dict(os.environ)
        e.update(env)
        for k in [k for k, v in env.items() if v is None]:
            e.pop(k, None)
        self.p = subprocess.Popen([sys.executable, os.path.abspath(__file__), module], env=e, stdin=subprocess.PIPE,
                                  stdout=subprocess.PIPE, text=True, bufsize=1)

    def ask(self, obj):
        """The answer, or None if the helper died while answering."""
        self.send(obj)
        return self.receive()

    def send(self, obj):
        try:
            self.p.stdin.write(json.dumps(obj) + '\n')
            self.p.stdin.flush()
        except (BrokenPipeError, OSError):
            pass

    def receive(self):
        try:
            line = self.p.stdout.readline()
        except (BrokenPipeError, OSError):
            line = ''
        if not line:
            rc = self.p.wait()
            self.died = rc
            return None
        return json.loads(line)

    def close(self):
        try:
            self.p.stdin.close()
            self.p.wait(10)
        except Exception:
            self.p.kill()


def serve(module):
    mod = importlib.import_module(module)
    out = os.fdopen(os.dup(1), 'w')
    os.dup2(2, 1)
    for line in sys.stdin:
        try:
            ans = mod.answer(json.loads(line))
        except BaseException as e:
            import traceback
            ans = {'helper_error': '%s: %s' % (type(e).__name__, e), 'tb': traceback.format_exc()[-1500:]}
        out.write(json.dumps(ans) + '\n')
        out.flush()


if __name__ == '__main__':
    sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
    sys.setrecursionlimit(4000)
    serve(sys.argv[1])
    os._exit(0)
