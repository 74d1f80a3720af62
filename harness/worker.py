"""One shard of a check: generate cases with Hypothesis, run them, shrink the first failure."""
import hashlib
import importlib
import json
import os
import resource
import sys
import time
import traceback

spec = json.load(open(sys.argv[1]))
outdir = spec['out']
shard = spec['shard']

import core
from core import Violation, HarnessError


def verify_environment():
    import pyrsistent
    from pyrsistent import pvector
    if not pyrsistent.__file__.startswith('/repo/'):
        raise HarnessError('pyrsistent imported from %s' % pyrsistent.__file__)
    mod = type(pvector()).__module__
    if spec['config'] == 'py':
        if 'pvectorc' in sys.modules:
            raise HarnessError('C extension imported in the pure Python configuration')
    else:
        import pvectorc
        if not pvectorc.__file__.startswith(spec['build']):
            raise HarnessError('pvectorc imported from %s' % pvectorc.__file__)
        if type(pvector()) is not type(pvectorc.pvector()):
            raise HarnessError('C extension is not in use')


def main():
    verify_environment()
    sys.setrecursionlimit(4000)
    try:
        chk = importlib.import_module('checks.' + spec['id'].lower())
    except Exception as e:
        frames = traceback.extract_tb(e.__traceback__)
        if not frames[-1].filename.startswith('/repo/') or isinstance(e, ImportError):
            raise
        # the declarations at the top of the check are valid and the code refused one
        err = 'valid declarations raise %s: %s' % (type(e).__name__, core.short(str(e)))
        with open(os.path.join(outdir, 'res-%d.json' % shard), 'w') as f:
            json.dump(dict(evals=0, nontrivial=0, rounds=0, classes={}, samples=[], shard=shard, config=spec['config'],
                           hashseed=os.environ.get('PYTHONHASHSEED'), done=False, violation={'case': None, 'error': err}, wall=0), f)
        traceback.print_exc()
        return 1
    cur = os.path.join(outdir, 'cur-%d.json' % shard)
    curf = open(cur, 'w')
    stats = core.Stats()
    state = {'evals': 0, 'nontrivial': 0, 'rounds': 0}
    hashes = set()
    samples = []
    t0 = time.time()
    deadline = t0 + spec['soft_s']
    best = {'case': None, 'err': None, 'at': None, 'size': None}

    def progress(done=False, violation=None):
        rep = dict(state, classes=stats.classes, samples=samples, shard=shard, config=spec['config'],
                   hashseed=os.environ.get('PYTHONHASHSEED'), done=done, violation=violation,
                   wall=time.time() - t0)
        tmp = os.path.join(outdir, 'res-%d.tmp' % shard)
        with open(tmp, 'w') as f:
            json.dump(rep, f)
        with open(os.path.join(outdir, 'hash-%d.bin' % shard), 'wb') as f:
            f.write(b''.join(hashes))
        os.replace(tmp, os.path.join(outdir, 'res-%d.json' % shard))

    def execute(case):
        """Run one case; Violation for anything but success."""
        text = core.dumps(case)
        curf.seek(0)
        curf.truncate()
        curf.write(text)
        curf.flush()
        stats.nontrivial = False
        try:
            chk.run_case(case, stats)
        except Violation:
            raise
        except HarnessError:
            raise
        except MemoryError:
            raise HarnessError('out of memory in the harness')
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)
            where = '; '.join('%s:%d' % (os.path.basename(f.filename), f.lineno) for f in tb[-4:])
            raise Violation('unexpected %s: %s (%s)' % (type(e).__name__, core.short(str(e)), where)) from e
        return text

    def account(text):
        state['evals'] += 1
        if stats.nontrivial:
            h = hashlib.blake2b(text.encode(), digest_size=8).digest()
            if h not in hashes:
                hashes.add(h)
                state['nontrivial'] = len(hashes)
                n = len(hashes)
                if len(samples) < 4 and (n in (1, 20, 200, 2000)):
                    samples.append(json.loads(text) if len(text) < 3000 else text[:3000])

    def report(case, err):
        progress(violation={'case': case, 'error': err})

    # fixed, enumerated cases first (not generated by Hypothesis), split over the shards
    if hasattr(chk, 'enumerated'):
        for i, case in enumerate(chk.enumerated(spec)):
            if time.time() > deadline:
                break
            try:
                account(execute(case))
            except Violation as e:
                case, err = shrink_plain(chk, execute, case, str(e))
                report(case, err)
                return 1
        state['enumerated'] = state['evals']

    import hypothesis
    from hypothesis import given, settings, HealthCheck, Phase
    import warnings
    warnings.simplefilter('ignore')

    strategies = chk.strategies(spec)       # list of (name, strategy, weight)
    total = spec['examples']
    per = spec['round_size']
    wsum = sum(w for _, _, w in strategies)

    class Stop(BaseException):
        pass

    def one_round(name, strategy, n, seed):
        first = {'t': None}

        def body(case):
            if best['case'] is not None:
                # shrinking; bounded in time, after that only the best known case still fails
                if time.time() - first['t'] > spec['shrink_s']:
                    if core.dumps(case) == core.dumps(best['case']):
                        raise Violation(best['err'])
                    return
                try:
                    execute(case)
                except Violation as e:
                    size = (len(core.dumps(case)),)
                    if best['size'] is None or size <= best['size']:
                        best.update(case=case, err=str(e), size=size)
                    raise
                return
            if time.time() > deadline:
                return
            try:
                account(execute(case))
            except Violation as e:
                first['t'] = time.time()
                best.update(case=case, err=str(e), size=(len(core.dumps(case)),))
                report(case, str(e))          # already usable if the shrinking is cut short
                raise

        test = given(strategy)(body)
        test = settings(max_examples=n, database=None, deadline=None, phases=[Phase.generate, Phase.shrink],
                        suppress_health_check=list(HealthCheck), print_blob=False,
                        report_multiple_bugs=False)(test)
        test = hypothesis.seed(seed)(test)
        try:
            test()
        except HarnessError:
            raise
        except BaseException as e:
            if best['case'] is None:
                raise HarnessError('hypothesis: %r' % (e,)) from e

    rnd = 0
    done = 0
    plan = []
    for name, strategy, w in strategies:
        n = max(1, int(total * w / wsum))
        k = 0
        while n > 0:
            plan.append((k, name, strategy, min(per, n)))
            n -= per
            k += 1
    plan.sort(key=lambda p: p[0])           # interleave the strategies
    for k, name, strategy, n in plan:
        if time.time() > deadline:
            stats.hit('soft_limit_reached')
            break
        seed = int.from_bytes(hashlib.blake2b(('%s/%d/%d/%s/%d' % (
            spec['id'], spec['seed'], shard, name, k)).encode(), digest_size=6).digest(), 'big')
        one_round(name, strategy, n, seed)
        state['rounds'] += 1
        if best['case'] is not None:
            report(best['case'], best['err'])
            return 1
        progress()
    if hasattr(chk, 'final'):
        chk.final(stats)
    progress(done=True)
    return 0


def shrink_plain(chk, execute, case, err):
    """Delta debugging over case['ops'] for cases that did not come from Hypothesis."""
    if not (isinstance(case, dict) and isinstance(case.get('ops'), list)):
        return case, err
    t0 = time.time()
    ops = case['ops']
    n = 2
    while len(ops) >= 1 and time.time() - t0 < 30:
        size = max(1, len(ops) // n)
        reduced = False
        i = 0
        while i < len(ops) and time.time() - t0 < 30:
            trial = ops[:i] + ops[i + size:]
            c = dict(case, ops=trial)
            try:
                execute(c)
            except Violation as e:
                ops, case, err, reduced = trial, c, str(e), True
                continue
            i += size
        if not reduced:
            if size == 1:
                break
            n *= 2
    return case, err


if __name__ == '__main__':
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    try:
        rc = main()
    except HarnessError as e:
        traceback.print_exc()
        sys.stderr.write('HARNESS-ERROR %s\n' % e)
        rc = 3
    except Exception:
        traceback.print_exc()
        rc = 3
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)
