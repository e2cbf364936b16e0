'''Writes DESIGN.md.'''
import ast
import glob
import json
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import meta

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def header(pid):
    out = {}
    tree = ast.parse(open(os.path.join(here, 'harness', 'checks', pid.lower() + '.py')).read())
    for node in tree.body:
        if isinstance(node, ast.Assign) and getattr(node.targets[0], 'id', None) in ('RULE', 'ASSUMPTIONS', 'REQUIRED_EVENTS'):
            out[node.targets[0].id] = ast.literal_eval(node.value)
        if isinstance(node, ast.Assign) and getattr(node.targets[0], 'id', None) == 'WORKLOADS' and isinstance(node.value, ast.List):
            out['WORKLOADS'] = [[ast.unparse(e) for e in t.elts] for t in node.value.elts]
    return out


def seconds(pid):
    cost = os.path.join(here, 'tools', 'cost.json')
    known = json.load(open(cost)) if os.path.exists(cost) else {}
    try:
        e = json.load(open(os.path.join(here, 'evidence', pid + '.json')))
        known[pid + ' ' + e['tier']] = round(e['wall_s'])
    except OSError:
        pass
    json.dump(known, open(cost, 'w'), indent=0, sort_keys=True)
    return ', '.join('{} {} s'.format(t, known[pid + ' ' + t]) for t in ('quick', 'thorough') if pid + ' ' + t in known)


parts = [open(os.path.join(here, 'tools', 'design_head.md')).read()]
for line in open(os.path.join(here, 'properties.jsonl')):
    p = json.loads(line)
    pid = p['id']
    parts.append('\n### {} {}\n'.format(pid, p['title']))
    if pid not in meta.CHECKS:
        parts.append('Not applicable: {}\n'.format(meta.NOT_APPLICABLE[pid]))
        continue
    technique, oracle, why = meta.CHECKS[pid]
    h = header(pid)
    parts.append('* Monitor: {}.'.format(technique))
    parts.append('* Oracle: {}.'.format(oracle))
    parts.append('* Reach beyond the tests: {}.'.format(why))
    parts.append('* Executions: {}'.format(' '.join(h['RULE'].split())))
    if h.get('WORKLOADS'):
        parts.append('* Workloads (quick/thorough cases): {}.'.format(
            ', '.join('{} {}/{}'.format(w[0].strip("'"), w[2], w[3]) for w in h['WORKLOADS'])))
    if h.get('REQUIRED_EVENTS'):
        parts.append('* Must be observed: {}.'.format(', '.join(h['REQUIRED_EVENTS'])))
    for a in h.get('ASSUMPTIONS', []):
        parts.append('* Assumption: {}'.format(a))
    c = seconds(pid)
    if c:
        parts.append('* Cost: {}.'.format(c))
tail = open(os.path.join(here, 'tools', 'design_tail.md')).read()
rows = ['| bug | property | needs |', '|---|---|---|']
for f in sorted(glob.glob(os.path.join(here, 'seeded', '*', 'meta.json'))):
    m = json.load(open(f))
    rows.append('| {} | {} | {} |'.format(os.path.basename(os.path.dirname(f)), m['property'],
                                          m['needs'].replace('|', '/')))
tail = tail.replace('@@BUGS@@', '\n'.join(rows))
mut = os.path.join(here, 'tools', 'mutants.txt')
tail = tail.replace('@@MUTANTS@@', open(mut).read().strip() if os.path.exists(mut) else '')
open(os.path.join(here, 'DESIGN.md'), 'w').write('\n'.join(parts) + '\n\n' + tail)
