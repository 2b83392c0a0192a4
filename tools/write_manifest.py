"""Writes MANIFEST.json from properties.jsonl and the property modules that exist."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = ('symbolic execution of the instrumented library source with z3 (bit-vector strings), compared with a reference '
        'semantics on every path; counterexamples replayed on the real library')
NOT = {
}
NOTE = 'bounded: {}; all values within the bounds of every harness (evidence lists them), both XML backends'

checks, missing = [], []
for line in open(os.path.join(HERE, 'properties.jsonl')):
    p = json.loads(line)
    pid = p['id']
    if pid in NOT:
        missing.append({'property': pid, 'reason': NOT[pid]})
    elif os.path.exists(os.path.join(HERE, 'props', pid.lower() + '.py')):
        checks.append({
            'property': pid,
            'quick_cmd': f'./check {pid} --tier quick',
            'thorough_cmd': f'./check {pid} --tier thorough',
            'technique': TECH,
            'level': 'model_checking',
            'level_note': NOTE.format(p['quantifier']['text']),
        })
    else:
        missing.append({'property': pid, 'reason': 'the check is not built yet'})
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump({'version': 1, 'setup_cmd': './check --help >/dev/null', 'checks': checks, 'not_applicable': missing}, f,
              indent=1)
    f.write('\n')
