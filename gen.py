#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from vlib/registry.py."""
import json, os, sys
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(V, 'vlib'))
from registry import PROPS
try:
    from registry import NOT_APPLICABLE
except ImportError:
    NOT_APPLICABLE = {}
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for pid in sorted(list(PROPS) + list(NOT_APPLICABLE)):
        p = PROPS.get(pid) or NOT_APPLICABLE[pid]
        f.write(json.dumps({'id': pid, 'title': p['title'], 'statement': p['statement'],
                            'quantifier': {'over': p['over'], 'text': p['qtext']}, 'why_tests_cant': p['why'],
                            'anchors': {'files': p['files'], 'mechanism': p['mech']}}) + '\n')
m = {'version': 1, 'setup_cmd': 'python3 setup.py',
     'hooks': {'guard': 'EVERIF_SMALL_TABLES', 'enable': '-DEVERIF_SMALL_TABLES: the term store uses 64 hash buckets instead of 32768, so that garbage collection sweeps are affordable under symbolic execution', 'source_commits': ['48a207d']},
     'checks': [{'property': pid, 'quick_cmd': 'python3 check.py %s --tier quick' % pid,
                 'thorough_cmd': 'python3 check.py %s --tier thorough' % pid,
                 'technique': 'symbolic execution of the LLVM bitcode of the real functions with Z3 deciding every branch and assertion, within bounds; counterexamples replayed natively',
                 'level': PROPS[pid].get('level', 'model_checking'), 'level_note': PROPS[pid]['note']} for pid in sorted(PROPS)],
     'not_applicable': [{'property': k, 'reason': v['reason']} for k, v in sorted(NOT_APPLICABLE.items())]}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(V, 'MANIFEST.json'), 'a').write('\n')

# DESIGN.md: general part by hand, per-property part from the registry
out = [open(os.path.join(V, 'design_head.md')).read(), '## Properties\n']
for pid in sorted(PROPS):
    P = PROPS[pid]
    out.append('### %s %s\n\n%s\n' % (pid, P['title'], P['statement']))
    out.append('Quantified over: %s.  Why tests cannot settle it: %s\n' % (P['qtext'], P['why']))
    out.append('How it is decided: %s.\n' % P['note'])
    out.append('Bounds and assumptions:\n\n' + '\n'.join('* ' + a for a in P['assumptions']) + '\n')
    out.append('Entries (quick bounds; thorough overrides in brackets): ' + '; '.join(
        '`%s` %s%s' % (e['entry'], ','.join('%s=%s' % kv for kv in e['params'].items()),
                       ' [%s]' % ','.join('%s=%s' % kv for kv in e['thorough'].items()) if e['thorough'] else '')
        for e in P['entries']) + '.\n')
NA = NOT_APPLICABLE
if NA:
    out.append('## Not applicable\n')
    for pid in sorted(NA):
        out.append('* %s %s: %s\n' % (pid, NA[pid]['title'], NA[pid]['reason']))
tail = os.path.join(V, 'design_tail.md')
if os.path.exists(tail):
    out.append(open(tail).read())
open(os.path.join(V, 'DESIGN.md'), 'w').write('\n'.join(out))
