#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the world registry."""
import json, os, re
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(H + '/properties.jsonl')]
reg = re.findall(r"'(C\d\d)'", open(H + '/dst/worlds/registry.py').read())
NOTE = {}
exec(open(H + '/tools/level_notes.py').read())
PURE = 'pure function of its input: no schedule, clock, fault, I/O or interleaving in it for a simulator to control; input generation alone would be property-based testing, not deterministic simulation'
checks, na = [], []
for p in props:
    i = p['id']
    if i in reg:
        checks.append(dict(property=i, quick_cmd='python3 run.py check %s --tier quick' % i, thorough_cmd='python3 run.py check %s --tier thorough' % i,
                           evidence_file='evidence/%s.json' % i,
                           technique=TECH[i], level='exploration', level_note=NOTE[i]))
    else:
        na.append(dict(property=i, reason=PURE if i >= 'C20' else 'check under construction'))
m = dict(version=1, setup_cmd='python3 run.py setup', checks=checks, not_applicable=na,
         notes='No hooks in /repo: every seam is installed from outside before QMix is imported (see DESIGN.md).')
json.dump(m, open(H + '/MANIFEST.json', 'w'), indent=1)
open(H + '/MANIFEST.json', 'a').write('\n')
