"""Validate and try planted bugs.  Not used by any check.

  seedtool.py make SPECS.py [ids]   write /verif/seeded/<id>/ for every spec that is valid (builds, passes the stable tests, demo
                                    passes without and fails with the patch)
  seedtool.py try [ids]             run the check of the property against every seeded bug: caught or not

Every step runs in a private mount namespace (unshare -Urm) with a copy of /repo mounted over /repo, so /repo is not touched.
"""
import json
import os
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

SEEDED = '/verif/seeded'
WORK = '/tmp/seedwork'
DEMO = '''#!/bin/bash
# exit 0: the property holds here; nonzero: it is broken
here=$(cd "$(dirname "$0")" && pwd)
export PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=/repo PYTHONHASHSEED=0
unset PYRSISTENT_NO_C_EXTENSION
%s
'''
RUN = {
    'c': 'timeout 250 /opt/venv/bin/python "$here/demo.py"',
    'py': 'PYRSISTENT_NO_C_EXTENSION=1 timeout 250 /opt/venv/bin/python "$here/demo.py"',
}


def ns(repo, verif, cmd, timeout=900):
    sh = 'mount --bind %s /repo && ' % repo
    if verif:
        sh += 'mount --bind %s /verif && ' % verif
    return subprocess.run(['unshare', '-Urm', 'bash', '-c', sh + cmd], capture_output=True, text=True, timeout=timeout)


def copy(name):
    d = os.path.join(WORK, name)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(WORK, exist_ok=True)
    subprocess.run(['cp', '-a', '/repo', d], check=True)
    subprocess.run(['git', '-C', d, 'checkout', '-q', '--', '.'], check=True)
    return d


def make_one(s):
    name = s['id']
    d = copy(name)
    try:
        for f, old, new in s['edits']:
            p = os.path.join(d, f)
            t = open(p).read()
            if t.count(old) != 1:
                return name, 'edit text found %d times in %s: %r' % (t.count(old), f, old[:60])
            open(p, 'w').write(t.replace(old, new))
        diff = subprocess.run(['git', '-C', d, 'diff'], capture_output=True, text=True).stdout
        tmp = os.path.join(WORK, name + '.d')
        shutil.rmtree(tmp, ignore_errors=True)
        os.makedirs(tmp)
        open(tmp + '/patch.diff', 'w').write(diff)
        open(tmp + '/demo.sh', 'w').write(DEMO % ('\n'.join(RUN[c] + ' || exit 1' for c in s.get('configs', ['c']))))
        open(tmp + '/demo.py', 'w').write(s['demo'].lstrip('\n'))
        json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(tmp + '/meta.json', 'w'), indent=1)
        r = ns(d, None, 'bash /opt/vp/build.sh')
        if r.returncode:
            return name, 'does not build: ' + r.stderr[-400:]
        r = ns(d, None, 'cd /repo && bash %s/demo.sh' % tmp)
        if r.returncode == 0:
            return name, 'demo passes with the patch'
        why = (r.stdout + r.stderr).strip().splitlines()[-1:]
        r = ns(d, None, 'bash /opt/vp/test.sh %s/out.json' % tmp)
        o = json.load(open(tmp + '/out.json'))
        os.remove(tmp + '/out.json')
        b = json.load(open('/opt/vp/BASELINE.json'))
        miss = set(b['stable']) - set(o['passed'])
        if miss:
            return name, 'caught by %d tests: %s' % (len(miss), sorted(miss)[:2])
        subprocess.run(['git', '-C', d, 'checkout', '-q', '--', '.'], check=True)
        ns(d, None, 'bash /opt/vp/build.sh')
        r = ns(d, None, 'cd /repo && bash %s/demo.sh' % tmp)
        if r.returncode:
            return name, 'demo fails without the patch: ' + r.stderr[-400:]
        dest = os.path.join(SEEDED, name)
        shutil.rmtree(dest, ignore_errors=True)
        os.makedirs(SEEDED, exist_ok=True)
        shutil.move(tmp, dest)
        return name, 'ok (%s)' % why
    finally:
        shutil.rmtree(d, ignore_errors=True)
        shutil.rmtree(os.path.join(WORK, name + '.d'), ignore_errors=True)


def try_one(name, prop=None):
    meta = json.load(open(os.path.join(SEEDED, name, 'meta.json')))
    prop = prop or meta['property']
    tag = name + '-' + prop
    d = copy(tag)
    v = os.path.join(WORK, tag + '.verif')
    shutil.rmtree(v, ignore_errors=True)
    shutil.copytree('/verif', v, ignore=shutil.ignore_patterns('seeded', '.git', 'evidence', 'replays'))
    try:
        r = subprocess.run(['git', '-C', d, 'apply', os.path.join(SEEDED, name, 'patch.diff')], capture_output=True, text=True)
        if r.returncode:
            return name, prop, 'patch does not apply'
        r = ns(d, v, 'cd /verif && VERIF_SEED=%s VERIF_TIER=quick /opt/venv/bin/python harness/run.py %s quick' % (os.environ.get('VERIF_SEED', '1'), prop))
        out = r.stdout.strip().splitlines()
        caught = r.returncode == 1 and any(l.startswith('VIOLATION property=' + prop) for l in out)
        return name, prop, ('caught: ' if caught else 'MISSED rc=%d: ' % r.returncode) + (out[0][:160] if out else r.stderr[-300:])
    finally:
        shutil.rmtree(d, ignore_errors=True)
        shutil.rmtree(v, ignore_errors=True)


def main():
    if sys.argv[1] == 'make':
        g = {}
        exec(open(sys.argv[2]).read(), g)
        specs = [s for s in g['SEEDS'] if len(sys.argv) < 4 or s['id'] in sys.argv[3:]]
        with ThreadPoolExecutor(7) as ex:
            for name, res in ex.map(make_one, specs):
                print(name, res, flush=True)
    else:
        ids = sys.argv[2:] or sorted(os.listdir(SEEDED))
        with ThreadPoolExecutor(int(os.environ.get('JOBS', '2'))) as ex:
            for r in ex.map(try_one, ids):
                print(*r, flush=True)


main()
