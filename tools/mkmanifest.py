import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from registry import CHECKS
NOTES = {}
checks = []
for pid in sorted(CHECKS):
    c = CHECKS[pid]
    checks.append(dict(property=pid, quick_cmd=f'python3 tools/check.py {pid}', thorough_cmd=f'python3 tools/check.py {pid} --thorough',
                       technique=c.get('technique', 'bounded exhaustive exploration of the implementation against a reference model'),
                       level='model_checking', level_note=c.get('note', c['rule'])))
NA = {}
m = dict(version=1, setup_cmd='python3 tools/setup.py', checks=checks,
         not_applicable=[dict(property=p, reason=r) for p, r in NA.items() if p not in CHECKS],
         notes='No hooks in /repo: the environment is controlled by link-time interposition in the harnesses. '
               'Replay a counterexample with: python3 tools/check.py <id> --replay <file>.')
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l)['id'] for l in open(os.path.join(here, 'properties.jsonl'))]
for p in props:
    if p not in CHECKS and p not in NA:
        m['not_applicable'].append(dict(property=p, reason='The check is not built yet.'))
json.dump(m, open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
