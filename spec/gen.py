#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the property texts in spec/props.py (run by hand after editing them)."""
import json, os, sys
sys.dont_write_bytecode = True
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'spec'))
from props import PROPS, NOT_APPLICABLE
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in PROPS:
        assert len(p['title']) <= 80, p['title']
        for w in [x.split(':') for _, x in p['mech']] + [[x] for x in p['files']]:
            src = open(os.path.join('/repo', w[0])).read()
            assert len(w) < 2 or w[1] in src, w
        f.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'],
            'quantifier': {'over': p['over'], 'text': p['quant']}, 'why_tests_cant': p['why'],
            'anchors': {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']]}}) + '\n')
m = {'version': 1,
     'setup_cmd': 'bin/setup',
     'hooks': {'guard': 'verif', 'enable': 'No hooks are committed in /repo: every check instruments a scratch copy of the working tree mechanically (tools/instrument) and builds that.', 'source_commits': []},
     'checks': [{'property': p['id'], 'quick_cmd': 'bin/check %s quick' % p['id'], 'thorough_cmd': 'bin/check %s thorough' % p['id'],
                 'evidence_file': 'evidence/%s.json' % p['id'], 'technique': p['technique'], 'level': 'model_checking', 'level_note': p['note']} for p in PROPS],
     'not_applicable': NOT_APPLICABLE}
with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
