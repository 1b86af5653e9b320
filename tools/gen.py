#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table in tools/props.py."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
from props import PROPS, NOT_APPLICABLE
with open(os.path.join(V, 'properties.jsonl'), 'w') as fh:
    for p in PROPS:
        assert len(p['title']) <= 80, p['title']
        fh.write(json.dumps({
            'id': p['id'], 'title': p['title'], 'statement': p['statement'],
            'quantifier': {'over': p['over'], 'text': p['text']},
            'why_tests_cant': p['why'],
            'anchors': {'files': p['files'], 'mechanism': p['mechanism'],
                        'observe_at': p['observe'], 'hook_needed': None}}) + '\n')
m = {'version': 1, 'setup_cmd': 'bash setup.sh',
     'hooks': {'guard': 'FUNPY_VERIF_TRACE', 'enable': 'no hooks are needed: every check observes the public interface only', 'source_commits': []},
     'checks': [{'property': p['id'],
                 'quick_cmd': 'python3 check.py %s --tier quick' % p['id'],
                 'thorough_cmd': 'python3 check.py %s --tier thorough' % p['id'],
                 'evidence_file': 'evidence/%s.json' % p['id'],
                 'technique': p['technique'], 'level': p.get('level', 'model_checking'),
                 'level_note': p['level_note']} for p in PROPS if 'technique' in p],
     'not_applicable': NOT_APPLICABLE}
with open(os.path.join(V, 'MANIFEST.json'), 'w') as fh:
    json.dump(m, fh, indent=1)
    fh.write('\n')

# ---- known findings: the hand-written findings and the list of repairs
import subprocess
from fixmap import FIX
ids = {p['id'] for p in PROPS} | {n['property'] for n in NOT_APPLICABLE}
kf = os.path.join(V, 'known_findings.txt')
keep = [l for l in open(kf).read().splitlines() if not l.startswith('fixed:')] if os.path.exists(kf) else [
    '# Findings.  "known:" lines suppress nothing but what they describe; "fixed:" lines suppress nothing at all.']
log = dict(l.split(' ', 1) for l in subprocess.check_output(['git', '-C', '/repo', 'log', '--format=%h %s'], text=True).splitlines())
for h, what in log.items():
    if what.startswith('fix: '):
        if h not in FIX:
            print('unassigned fix', h, what)
        elif FIX[h] not in ids:
            print('property of fix not written yet', FIX[h], h)
        keep.append('fixed: property=%s %s %s' % (FIX.get(h, '?'), h, what[5:]))
with open(kf, 'w') as fh:
    fh.write('\n'.join(keep) + '\n')

# ---- DESIGN.md
import textwrap
def para(t):
    return '\n'.join(textwrap.wrap(' '.join(t.split()), 116))
out = ['## Properties', '']
for p in PROPS:
    out += ['### %s %s' % (p['id'], p['title']), '', para(p['statement']), '', para('*How it is decided:* ' + p['design']), '',
            para('*Why tests cannot:* ' + p['why'] + '.'), '']
if NOT_APPLICABLE:
    out += ['### Not applicable', ''] + ['* %s: %s' % (n['property'], n['reason']) for n in NOT_APPLICABLE]
fx = ['## Genuine defects repaired in /repo', '', 'Found by reading, by the specifications\' replays, or both; each is one `fix:` commit.', '']
fx += ['* %s (%s) %s' % (h, FIX.get(h, '?'), w[5:]) for h, w in log.items() if w.startswith('fix: ')]
sd = ['## Planted bugs', '', 'Every bug passes the 203 stable tests; "caught by" is from running the quick check.', '', '| bug | property | needs | caught by |', '|---|---|---|---|']
cf = os.path.join(V, 'tools', 'caught.json')
caught = json.load(open(cf)) if os.path.exists(cf) else {}
for d in sorted(os.listdir(os.path.join(V, 'seeded'))):
    mf = os.path.join(V, 'seeded', d, 'meta.json')
    if os.path.exists(mf):
        mj = json.load(open(mf))
        sd.append('| %s | %s | %s | %s |' % (d, mj['property'], mj['needs'].replace('|', '/'), caught.get(d, '?')))
txt = open(os.path.join(V, 'tools', 'design.in.md')).read()
for k, v in (('@@PROPS@@', out), ('@@FIXES@@', fx), ('@@SEEDED@@', sd)):
    txt = txt.replace(k, '\n'.join(v))
with open(os.path.join(V, 'DESIGN.md'), 'w') as fh:
    fh.write(txt)
