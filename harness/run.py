"""Entry point of every check:  run.py PROPERTY quick|thorough"""
import importlib
import json
import os
import re
import resource
import shutil
import signal
import subprocess
import sys
import sysconfig
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = '/repo'
PY = sys.executable
CRASH = {-signal.SIGSEGV, -signal.SIGABRT, -signal.SIGBUS, -signal.SIGFPE, -signal.SIGILL, -signal.SIGTRAP}
ASAN_EXIT = 99


class Error(Exception):
    pass


# ------------------------------------------------------------------ building

def build_ext(outdir, variant):
    """Compile /repo/pvectorcmodule.c into outdir (nothing is written to /repo)."""
    os.makedirs(outdir, exist_ok=True)
    src = os.path.join(REPO, 'pvectorcmodule.c')
    so = os.path.join(outdir, 'pvectorc' + sysconfig.get_config_var('EXT_SUFFIX'))
    flags = ['-shared', '-fPIC', '-fwrapv', '-fno-strict-aliasing', '-w', '-g1',
             '-I' + sysconfig.get_paths()['include'], '-I' + REPO]
    if variant == 'asan':
        text = open(src).read()
        # without the free list a use after free is visible to the sanitizer; nothing else changes
        text2 = re.sub(r'(#define\s+NODE_CACHE_MAX_SIZE\s+)\d+', r'\g<1>0', text)
        src = os.path.join(outdir, 'pvectorcmodule.c')
        with open(src, 'w') as f:
            f.write(text2)
        flags += ['-O1', '-fsanitize=address', '-fno-omit-frame-pointer']
    else:
        flags += ['-O2', '-DNDEBUG']
    p = subprocess.run(['gcc'] + flags + [src, '-o', so], capture_output=True, text=True)
    if p.returncode:
        raise Error('the C extension does not compile:\n' + p.stderr[-3000:])
    return outdir


def build_all(configs, tmp):
    builds = {}
    need = set(configs) | {'c'}
    for variant in sorted(need - {'py'}):
        builds[variant] = build_ext(os.path.join(tmp, 'ext-' + variant), variant)
    empty = os.path.join(tmp, 'ext-py')
    os.makedirs(empty, exist_ok=True)
    builds['py'] = empty
    return builds


def child_env(config, hashseed, builds, tmp):
    env = {k: v for k, v in os.environ.items()
           if not k.startswith(('PYTHON', 'PYRSISTENT', 'HYPOTHESIS', 'LD_', 'ASAN'))}
    env['PYTHONPATH'] = os.pathsep.join([builds[config], HERE, REPO])
    env['PYTHONHASHSEED'] = str(hashseed)
    env['PYTHONDONTWRITEBYTECODE'] = '1'
    env['PYTHONPYCACHEPREFIX'] = os.path.join(tmp, 'pyc')
    env['PYTHONNOUSERSITE'] = '1'
    env['PYTHONFAULTHANDLER'] = '1'
    env['HYPOTHESIS_STORAGE_DIRECTORY'] = os.path.join(tmp, 'hyp')
    env['VERIF_CONFIG'] = config
    env['VERIF_BUILD_C'] = builds.get('c', '')
    env['VERIF_BUILD_PY'] = builds['py']
    env['VERIF_TMP'] = tmp
    if config == 'py':
        env['PYRSISTENT_NO_C_EXTENSION'] = '1'
    if config == 'asan':
        lib = subprocess.run(['gcc', '-print-file-name=libasan.so'], capture_output=True, text=True).stdout.strip()
        env['LD_PRELOAD'] = os.path.realpath(lib)
        env['ASAN_OPTIONS'] = 'detect_leaks=0:abort_on_error=0:exitcode=%d:allocator_may_return_null=1:' \
                              'quarantine_size_mb=64:handle_segv=1' % ASAN_EXIT
        env['PYTHONMALLOC'] = 'malloc'
        env.pop('PYTHONFAULTHANDLER')
    return env


def crashed(rc):
    return rc in CRASH or rc == ASAN_EXIT


def replay_process(rep, tmp, builds, extra=(), cpu=None):
    fd, path = tempfile.mkstemp(prefix='rep-', suffix='.json', dir=tmp)
    with os.fdopen(fd, 'w') as f:
        json.dump(rep, f)
    env = child_env(rep['config'], rep['hashseed'], builds, tmp)

    def limit():
        if cpu:
            resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu + 5))
    return subprocess.Popen([PY, os.path.join(HERE, 'replay.py'), '--inner', path] + list(extra), env=env, cwd=tmp,
                            stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, preexec_fn=limit)


def replay_rc(rep, tmp, builds, timeout=120, cpu=None):
    p = replay_process(rep, tmp, builds, cpu=cpu)
    try:
        out, err = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        p.kill()
        p.communicate()
        return None, 'timeout'
    return p.returncode, (out + err)[-1500:]


def shrink_crash(rep, tmp, builds, budget=60):
    """Delta debugging of case['ops'] in fresh processes."""
    case = rep['case']
    if not (isinstance(case, dict) and isinstance(case.get('ops'), list)):
        return rep
    t0 = time.time()
    ops = case['ops']
    size = max(1, len(ops) // 2)
    while time.time() - t0 < budget:
        i = 0
        reduced = False
        while i < len(ops) and time.time() - t0 < budget:
            trial = ops[:i] + ops[i + size:]
            r = dict(rep, case=dict(case, ops=trial))
            rc, _ = replay_rc(r, tmp, builds, timeout=60)
            if rc is not None and crashed(rc):
                ops, rep, case, reduced = trial, r, r['case'], True
            else:
                i += size
        if not reduced:
            if size == 1:
                break
            size = max(1, size // 2)
    return rep


# ------------------------------------------------------------------ running

def main():
    pid, tier = sys.argv[1], sys.argv[2]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    sys.path.insert(0, HERE)
    sys.dont_write_bytecode = True
    meta = json.loads(subprocess.run(
        [PY, '-c', 'import sys; sys.path.insert(0, %r); sys.dont_write_bytecode=True\n'
         'import json, plans; print(json.dumps(plans.PLANS[%r]))' % (HERE, pid)],
        capture_output=True, text=True, check=True).stdout)
    tmp = tempfile.mkdtemp(prefix='pyrs-%s-' % pid)
    try:
        code = drive(pid, tier, seed, meta, tmp, t0)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return code


def drive(pid, tier, seed, meta, tmp, t0):
    configs = meta['configs']
    builds = build_all(configs, tmp)
    out = os.path.join(tmp, 'out')
    os.makedirs(out)
    mult = 1 if tier == 'quick' else meta.get('thorough', 20)
    soft = meta.get('soft_s', 45) * (1 if tier == 'quick' else meta.get('thorough', 20))
    hard = soft + 240
    procs = []
    specs = []
    for i, config in enumerate(configs):
        spec = {'id': pid, 'tier': tier, 'seed': seed, 'shard': i, 'shards': len(configs), 'config': config,
                'build': builds[config], 'out': out, 'soft_s': soft,
                'examples': int(meta['examples'] * mult * meta.get('scale', {}).get(config, 1)),
                'round_size': meta.get('round_size', 200), 'shrink_s': 40}
        path = os.path.join(out, 'spec-%d.json' % i)
        json.dump(spec, open(path, 'w'))
        hashseed = 0 if i < 2 else (seed * 1000003 + i * 7919) % 4294967295
        spec['hashseed'] = hashseed
        log = open(os.path.join(out, 'log-%d.txt' % i), 'wb')
        p = subprocess.Popen([PY, os.path.join(HERE, 'worker.py'), path],
                             env=child_env(config, hashseed, builds, tmp), cwd=tmp,
                             stdout=log, stderr=subprocess.STDOUT, start_new_session=True)
        procs.append(p)
        specs.append(spec)

    def kill_all():
        for p in procs:
            if p.poll() is None:
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except ProcessLookupError:
                    pass
        for p in procs:
            p.wait()

    violations = []
    errors = []
    pending = set(range(len(procs)))
    hung = set()
    while pending:
        for i in sorted(pending):
            rc = procs[i].poll()
            if rc is None:
                if time.time() - t0 > hard:
                    hung.add(i)
                    os.killpg(procs[i].pid, signal.SIGKILL)
                    procs[i].wait()
                    pending.discard(i)
                continue
            pending.discard(i)
            if rc == 1 or (rc != 0 and has_violation(out, i)):
                violations.append(i)
            elif crashed(rc):
                violations.append(i)
            elif rc != 0:
                errors.append((i, rc))
        if violations or errors:
            break
        time.sleep(0.05)
    kill_all()

    results = {}
    for i in range(len(procs)):
        try:
            results[i] = json.load(open(os.path.join(out, 'res-%d.json' % i)))
        except (OSError, ValueError):
            results[i] = None

    def cur_case(i):
        try:
            return json.load(open(os.path.join(out, 'cur-%d.json' % i)))
        except (OSError, ValueError):
            return None

    found = None
    for i in violations:
        r = results[i]
        rc = procs[i].returncode
        base = {'property': pid, 'config': configs[i], 'hashseed': specs[i]['hashseed'], 'seed': seed, 'tier': tier}
        if r and r.get('violation'):
            rep = dict(base, case=r['violation']['case'], error=r['violation']['error'])
            prc, text = replay_rc(rep, tmp, builds)
            rep['reproduced_in_fresh_process'] = prc not in (0, 3, None)
            found = rep
            break
        case = cur_case(i)
        rep = dict(base, case=case, error='the process died: %s' % describe(rc), log=tail(out, i))
        if case is not None:
            prc, text = replay_rc(rep, tmp, builds)
            if prc is not None and crashed(prc):
                rep = shrink_crash(rep, tmp, builds)
                rep['reproduced_in_fresh_process'] = True
            else:
                rep['reproduced_in_fresh_process'] = False   # needs the memory state of earlier cases
        found = rep
        break
    if not found and hung:
        for i in sorted(hung):
            case = cur_case(i)
            if case is None:
                continue
            rep = {'property': pid, 'config': configs[i], 'hashseed': specs[i]['hashseed'], 'seed': seed, 'tier': tier,
                   'case': case}
            rc, text = replay_rc(rep, tmp, builds, timeout=400, cpu=60)
            if rc in (-signal.SIGXCPU, -signal.SIGKILL):
                rep['error'] = 'does not terminate within 60 s of processor time'
                found = rep
                break
        if not found:
            errors.append((sorted(hung), 'no progress within %d s' % hard))

    evidence(pid, tier, seed, meta, results, out, found, time.time() - t0)

    if found:
        os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
        path = os.path.join(VERIF, 'replays', '%s-%s-%d.json' % (pid, tier, seed))
        with open(path, 'w') as f:
            json.dump(found, f, indent=1)
        print('violated: %s' % found['error'])
        print('case: %s' % json.dumps(found['case'])[:1500])
        print('VIOLATION property=%s replay=%s' % (pid, path))
        return 1
    if errors:
        for i, rc in errors:
            print('ERROR of the harness in shard %s: %s' % (i, rc))
            if isinstance(i, int):
                print(tail(out, i))
        return 2
    for line in meta.get('known', []):
        pass
    known_findings(pid, builds, tmp)
    ev = sum(r['evals'] for r in results.values() if r)
    print('%s %s: held on %d generated cases, %.1f s' % (pid, tier, ev, time.time() - t0))
    return 0


def known_findings(pid, builds, tmp):
    """Print a KNOWN-FINDING line for each listed finding that still reproduces."""
    path = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(path):
        return
    for f in json.load(open(path))['findings']:
        if f['property'] != pid:
            continue
        p = subprocess.run([PY, '-c', f['reproduce']], env=child_env('c', 0, builds, tmp), cwd=tmp,
                           capture_output=True, text=True, timeout=60)
        if p.returncode == 1 and 'REPRODUCED' in p.stdout:
            print('KNOWN-FINDING: property=%s %s' % (pid, f['what']))


def has_violation(out, i):
    try:
        return bool(json.load(open(os.path.join(out, 'res-%d.json' % i))).get('violation'))
    except (OSError, ValueError):
        return False


def describe(rc):
    if rc == ASAN_EXIT:
        return 'AddressSanitizer report'
    try:
        return signal.Signals(-rc).name
    except ValueError:
        return str(rc)


def tail(out, i):
    try:
        with open(os.path.join(out, 'log-%d.txt' % i), errors='replace') as f:
            return f.read()[-4000:]
    except OSError:
        return ''


def evidence(pid, tier, seed, meta, results, out, found, wall):
    classes = {}
    samples = []
    hashes = set()
    evals = 0
    shards = []
    for i, r in sorted(results.items()):
        if not r:
            continue
        evals += r['evals']
        for k, v in r['classes'].items():
            classes[k] = max(classes.get(k, 0), v) if k.startswith('max ') else classes.get(k, 0) + v
        samples.extend(r['samples'][:2])
        shards.append({'shard': i, 'config': r['config'], 'hashseed': r['hashseed'], 'cases': r['evals'],
                       'nontrivial': r['nontrivial'], 'rounds': r['rounds'], 'wall_s': round(r['wall'], 1)})
        try:
            data = open(os.path.join(out, 'hash-%d.bin' % i), 'rb').read()
            hashes.update(data[j:j + 8] for j in range(0, len(data), 8))
        except OSError:
            pass
    ev = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': meta.get('level', 'exploration'),
        'coverage': {
            'evaluations': evals,
            'distinct_nontrivial': len(hashes),
            'rule': meta['rule'],
            'samples': samples[:8],
            'classes': dict(sorted(classes.items())),
            'shards': shards,
        },
        'assumptions': meta.get('assumptions', []),
        'wall_s': round(wall, 2),
        'violations': 1 if found else 0,
    }
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    path = os.path.join(VERIF, 'evidence', pid + '.json')
    with open(path + '.tmp', 'w') as f:
        json.dump(ev, f, indent=1)
    os.replace(path + '.tmp', path)


if __name__ == '__main__':
    try:
        code = main()
    except Error as e:
        print('ERROR: %s' % e)
        code = 2
    sys.stdout.flush()
    sys.exit(code)
