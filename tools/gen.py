#!/usr/bin/env python3
# Regenerates properties.jsonl and MANIFEST.json from tools/props.py and checks.json.
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)
sys.path.insert(0, here)
from props import PROPS
try:
    from props import NA
except ImportError:
    NA = {}
from checks import CHECKS
checks = CHECKS
json.dump(CHECKS, open(os.path.join(root, 'checks.json'), 'w'), indent=1, sort_keys=True)
with open(os.path.join(root, 'properties.jsonl'), 'w') as f:
    for p in PROPS:
        assert len(p['title']) <= 80, p['title']
        assert p['statement'].count('. ') <= 2, p['id']
        f.write(json.dumps(p) + '\n')
m = {'version': 1, 'setup_cmd': 'bash setup.sh',
     'hooks': {'guard': 'verif', 'enable': 'the checks build with -tags verif; no file of /repo uses the tag (harnesses are overlaid, nothing in /repo is instrumented)', 'source_commits': []},
     'checks': [], 'not_applicable': []}
for p in PROPS:
    c = checks.get(p['id'])
    if c is None:
        m['not_applicable'].append({'property': p['id'], 'reason': NA[p['id']]})
        continue
    b = '; '.join('%s.%s: %s' % (h['pkg'], h['fn'], h['bound']) for h in c['harness'] if h.get('bound'))
    m['checks'].append({
        'property': p['id'],
        'quick_cmd': 'bash check.sh %s quick' % p['id'],
        'thorough_cmd': 'bash check.sh %s thorough' % p['id'],
        'evidence_file': 'evidence/%s.json' % p['id'],
        'technique': 'symbolic execution of the Go SSA of the real code, SMT (z3) over all values within bounds, native replay of counterexamples',
        'level': 'model_checking',
        'level_note': ('Bounded: ' + b + '. ' if b else 'Bounded. ') + 'Within the bounds every path is decided by the solver; a run that hits its time budget says so in the evidence (complete=false) and covers part of the bounded space. ' + c.get('outside', '') + ' Trusted: the SSA builder, the interpreter, its models of dag-pb/protobuf coding, hashing (as injective) and channels/mutexes, z3.'})
json.dump(m, open(os.path.join(root, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(root, 'MANIFEST.json'), 'a').write('\n')

# DESIGN.md
from methods import METHOD
t = open(os.path.join(here, 'DESIGN.in.md')).read()
o = []
for p in PROPS:
    c = checks.get(p['id'])
    o.append('### %s %s\n' % (p['id'], p['title']))
    if c is None:
        o.append('Not applicable: %s\n' % NA[p['id']])
        continue
    o.append(METHOD[p['id']] + '\n')
    for h in c['harness']:
        q, th = h['params']['quick'], h['params'].get('thorough', h['params']['quick'])
        o.append('* `%s.%s`: %s.  Parameters Q `%s`%s.' % (h['pkg'], h['fn'], h['bound'], ' '.join('%s=%s' % i for i in sorted(q.items())) or 'none', ' T `%s`' % ' '.join('%s=%s' % i for i in sorted(th.items())) if th != q else ', T the same'))
    if c['assumptions']:
        o.append('\nAssumed: ' + '; '.join(c['assumptions']) + '.' + (' Outside: ' + c['outside'] + '.' if c['outside'] else ''))
    o.append('')
t = t.replace('@@PROPS@@', '\n'.join(o))
kf = json.load(open(os.path.join(root, 'known-findings.json')))
t = t.replace('@@FIXES@@', '\n'.join('* ' + k['what'] for k in kf))
rows = ['| change | property | what it breaks | caught by |', '|---|---|---|---|']
sd = os.path.join(root, 'seeded')
for d in sorted(os.listdir(sd)):
    mt = json.load(open(os.path.join(sd, d, 'meta.json')))
    rows.append('| %s | %s | %s | %s |' % (d, mt['property'], mt['what_it_breaks'].replace('|', '/'), mt.get('caught_by', mt['property'])))
t = t.replace('@@SEEDS@@', '\n'.join(rows))
open(os.path.join(root, 'DESIGN.md'), 'w').write(t)
