import json, os, sys
sys.path.insert(0, os.path.dirname(__file__))
import meta
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)['id'] for l in open(os.path.join(here, 'properties.jsonl'))]
checks = []
for pid in ids:
    if pid not in meta.CHECKS:
        continue
    cmd = "python3 harness/run.py {} --tier {}"
    checks.append({'property': pid, 'quick_cmd': cmd.format(pid, 'quick'),
                   'thorough_cmd': cmd.format(pid, 'thorough'),
                   'technique': meta.CHECKS[pid][0], 'level': 'exploration',
                   'level_note': meta.NOTE.format(meta.EXTRA.get(pid, ''))})
m = {'version': 1, 'setup_cmd': 'mkdir -p evidence/replays', 'checks': checks,
     'not_applicable': [{'property': p, 'reason': meta.NOT_APPLICABLE[p]} for p in ids if p not in meta.CHECKS],
     'notes': 'Checks import the code from /repo (no build products); no hooks are committed in /repo: monitors '
              'are attached from outside at run time. Known findings and repairs: known_findings.txt.'}
json.dump(m, open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
