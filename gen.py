#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json from vp/props.py."""
import json, os, sys
V = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, V + '/vp')
from props import PROPS, NOT_APPLICABLE
NA = {n['property']: n for n in NOT_APPLICABLE}
out = []; checks = []
def sp(P, pid):
    out.append({'id': pid, 'title': P['title'], 'statement': P['statement'], 'quantifier': {'over': P['over'], 'text': P['qtext']}, 'why_tests_cant': P['why'],
                'anchors': {'files': P['files'], 'mechanism': [{'name': a, 'where': b} for a, b in P['mech']], 'state': [{'name': a, 'meaning': b, 'where': c} for a, b, c in P.get('state', [])], 'observe_at': P['observe'], 'hook_needed': None}})
for pid in sorted(list(PROPS) + list(NA)):
    if pid in NA: sp(NA[pid], pid); continue
    P = PROPS[pid]; sp(P, pid); assert len(P['title']) <= 80, pid
    checks.append({'property': pid, 'quick_cmd': 'python3 check.py %s --tier quick' % pid, 'thorough_cmd': 'python3 check.py %s --tier thorough' % pid, 'evidence_file': 'evidence/%s.json' % pid,
                   'technique': 'bounded symbolic execution of the LLVM bitcode of the real code, decided by z3' + ('; symbolic thread schedules with partial-order reduction and race detection' if any(e.get('mt') for e in P['entries']) else '; counterexamples replayed natively'),
                   'level': 'other', 'level_note': 'Solver-decided for every value within the bounds: ' + '; '.join('%s: %s' % (e['name'], e['bounds']) for e in P['entries']) + '. Nothing is claimed outside these bounds. Trusted: clang 18 bitcode, the engine, z3, the library models in /verif/rt.' + (' ' + '; '.join(P['assumptions']) if P['assumptions'] else '')})
with open(V + '/properties.jsonl', 'w') as f:
    for o in out: f.write(json.dumps(o) + '\n')
json.dump({'version': 1, 'setup_cmd': 'python3 setup.py', 'checks': checks, 'not_applicable': [{'property': k, 'reason': n['reason']} for k, n in sorted(NA.items())],
           'hooks': {'guard': 'none', 'enable': 'no hooks: the checks compile /repo\'s sources unchanged', 'source_commits': []},
           'notes': 'One symbolic engine (engine/), library models (rt/), harnesses (harness/), runner (check.py). See DESIGN.md.'}, open(V + '/MANIFEST.json', 'w'), indent=1)

# ---- DESIGN.md
def table(e):
    p = ' '.join('%s=%d' % kv for kv in e.get('params', {}).items()); return '| `%s` (%s) | %s | %s%s |' % (e['name'], e['file'], e['what'], e['bounds'], '' if e.get('tier') != 'thorough' else ' (thorough tier only)')
kf = json.load(open(V + '/known_findings.json'))['findings']; cost = json.load(open(V + '/vp/cost.json')) if os.path.exists(V + '/vp/cost.json') else {}
from oracles import ORACLE
from seededmap import CAUGHT
d = open(V + '/vp/design_head.md').read()
for pid in sorted(PROPS):
    P = PROPS[pid]
    d += '### %s %s\n\n%s\n\n*Oracle.* %s\n\n*Observed:* %s. *Quantified over:* %s. *Why tests do not settle it:* %s.%s%s\n\n| harness | what | bounds |\n|---|---|---|\n%s\n\n' % (
        pid, P['title'], P['statement'], ORACLE[pid], '; '.join(P['observe']), P['qtext'], P['why'], (' *Assumed:* ' + '; '.join(P['assumptions']) + '.') if P['assumptions'] else '',
        (' *Cost of the quick check:* about %s s.' % cost[pid]) if pid in cost else '', '\n'.join(table(e) for e in P['entries']))
t = open(V + '/vp/design_tail.md').read()
fx = [k for k in kf if k['status'] == 'fixed']
t = t.replace('@NFIXED@', str(len(fx))).replace('@FIXES@', '\n'.join('* %s: %s' % (p, '; '.join('%s (%s)' % (k['what'], k['commit'][:7]) for k in fx if k['property'] == p)) for p in sorted({k['property'] for k in fx})))
t = t.replace('@KNOWN@', '\n'.join('* %s %s (harness `%s`): %s' % (k['property'], k['id'], k['entry'], k['what']) for k in kf if k['status'] == 'known'))
rows = []
for b in sorted(os.listdir(V + '/seeded')):
    m = json.load(open(V + '/seeded/%s/meta.json' % b)); rows.append('| %s | %s | %s | %s |' % (b, m['property'], m['needs'].replace('|', '/'), CAUGHT.get(b, '?')))
t = t.replace('@SEEDED@', '| bug | property | needs | caught by |\n|---|---|---|---|\n' + '\n'.join(rows))
t = t.replace('@NA@', '\n'.join('* %s %s: %s' % (k, n['title'], n['reason']) for k, n in sorted(NA.items())) or '* none')
open(V + '/DESIGN.md', 'w').write(d + t)
