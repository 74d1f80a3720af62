"""Regenerate MANIFEST.json from the checks that exist (run by hand after adding a check)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ORACLE = {
 'C01': 'snapshot of every value re-compared after every step of a generated history',
 'C02': 'list model over generated programs', 'C03': 'differential run of both implementations',
 'C04': 'list model per evolver', 'C05': 'dict model over generated programs', 'C06': 'dict/set model per evolver',
 'C07': 'set model over generated programs', 'C08': 'Counter model over generated programs',
 'C09': 'list model over generated programs', 'C10': 'collections.deque model over generated programs',
 'C11': 'pairs of construction histories compared with equality of contents',
 'C12': 'round trip through pickle/copy, also across processes', 'C13': 'reference freeze/thaw and round trip',
 'C14': 'reference transformer', 'C15': 'predicate from the generated declaration',
 'C16': 'reference update semantics of the generated declaration', 'C17': 'reference update semantics of the generated declaration',
 'C18': 'reference plain data and round trip', 'C19': 'liveness model by weak references, AddressSanitizer, allocation counts',
 'C20': 'a failure injected at every call of user code, snapshots and retry', 'C21': 'traced retained memory against depth bounds',
 'C22': 'reference tuple semantics', 'C23': 'generated line-level thread schedules against sequential results',
 'C24': 'union of the declarations of all ancestors', 'C25': 'predicate from the generated field declarations',
}
NOTE = ('Every generated case is executed on the code of /repo (C extension compiled from the working tree and, where it matters, '
        'pure Python too) and judged by an explicit oracle; failures are shrunk and replayable. Assurance is that of the searched cases, '
        'not a proof; assumptions are listed in the evidence.')
checks = []
props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
na = []
for p in props:
    i = p['id']
    if not os.path.exists(os.path.join(HERE, 'harness/checks/%s.py' % i.lower())):
        na.append({'property': i, 'reason': 'check not built yet'})
        continue
    cmd = '/opt/venv/bin/python harness/run.py %s ' % i
    checks.append({'property': i, 'quick_cmd': cmd + 'quick', 'thorough_cmd': cmd + 'thorough', 'evidence_file': 'evidence/%s.json' % i,
                   'technique': 'property-based testing (Hypothesis): ' + ORACLE[i],
                   'level': 'fault_enumeration' if i == 'C20' else 'exploration', 'level_note': NOTE})
m = {'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': na}
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
