#!/usr/bin/env python3
"""writes MANIFEST.json from the list of claimed properties"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
import sys
sys.path.insert(0, V + '/bin')
import suites
TECH = suites.TECH
claimed = [p['id'] for p in props if hasattr(suites, p['id'])]
m = dict(version=1, setup_cmd='bash bin/setup.sh', checks=[], not_applicable=[],
         notes='TLA+ specifications in spec/ checked with TLC; harness/ binds them to /repo/include/boost/icl by replaying every emitted transition and by validating recorded histories. No hooks are needed: the library is header-only and its public API exposes the abstract state.')
for p in props:
    i = p['id']
    if i in claimed:
        m['checks'].append(dict(property=i, quick_cmd='python3 bin/check.py ' + i, thorough_cmd='VERIF_TIER=thorough python3 bin/check.py ' + i,
                                evidence_file='evidence/%s.json' % i, technique=TECH[i][0], level='model_checking', level_note=TECH[i][1]))
    else:
        m['not_applicable'].append(dict(property=i, reason='check under construction; not claimed yet'))
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(claimed), 'claimed')
