#!/usr/bin/env python3
# writes /verif/MANIFEST.json from properties.jsonl and props.py
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from props import PROPS
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
m = dict(version=1, setup_cmd='python3 run.py setup',
         hooks=dict(guard='none (the checks use only the public API; no hooks were needed)', enable='plain cargo build', source_commits=[]),
         checks=[], not_applicable=[])
for p in props:
    c = PROPS.get(p['id'])
    if not c:
        m['not_applicable'].append(dict(property=p['id'], reason='not built yet'))
        continue
    m['checks'].append(dict(
        property=p['id'], quick_cmd='python3 run.py check ' + p['id'], thorough_cmd='python3 run.py check %s thorough' % p['id'],
        evidence_file='evidence/%s.json' % p['id'],
        technique='TLA+ specification checked with TLC; traces recorded from the real code validated against it' +
                  (' and behaviours generated by TLC replayed into it' if c.get('generators') else ''),
        level='model_checking', level_note=c['note']))
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1, ensure_ascii=False)
open(V + '/MANIFEST.json', 'a').write('\n')
