#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from tools/props.py and properties.jsonl."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import props
ids = [json.loads(l)['id'] for l in open(V + '/properties.jsonl')]
checks = []
for i in ids:
    if i not in props.P:
        continue
    c = props.P[i]
    checks.append(dict(property=i, quick_cmd='python3 check.py %s --tier quick' % i, thorough_cmd='python3 check.py %s --tier thorough' % i,
        evidence_file='evidence/%s.json' % i,
        technique='deterministic simulation with fault injection: %s' % c['technique'], level='exploration',
        level_note=c['note'] + ' A clean batch is evidence over the sampled seeds, not proof; trusted: the simulator in sim/ (scheduler, kernel, network, camera and file stand-ins) and the oracle of this property.'))
m = dict(version=1, setup_cmd='python3 tools/build.py', hooks=dict(guard='SALSIFY_CAMERA_WIDTH (with SALSIFY_CAMERA_HEIGHT)',
    enable='tools/build.py compiles the Salsify programs with -DSALSIFY_CAMERA_WIDTH=sim_camera_width() -DSALSIFY_CAMERA_HEIGHT=sim_camera_height(); without the defines the shipped constants apply',
    source_commits=['37e1c8a']), checks=checks,
    not_applicable=[dict(property=i, reason=props.NA[i]) for i in ids if i not in props.P],
    notes='One seed is one run. Replay: python3 check.py --replay replays/<file>.json. See DESIGN.md.')
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1); open(V + '/MANIFEST.json', 'a').write('\n')
