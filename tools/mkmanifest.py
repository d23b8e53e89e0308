#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the registered checks."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V + '/lib', V + '/checks']
sys.dont_write_bytecode = True
import registry
ids = [json.loads(l)['id'] for l in open(V + '/properties.jsonl')]
ch = registry.all_checks()
M = dict(version=1, setup_cmd='python3 bin/setup', checks=[], not_applicable=[])
for i in ids:
    if i in ch:
        c = ch[i]
        M['checks'].append(dict(property=i, quick_cmd='bin/check %s' % i, thorough_cmd='bin/check %s --thorough' % i, evidence_file='evidence/%s.json' % i,
                                technique=c.technique, level=c.level, level_note=c.level_note))
    else:
        M['not_applicable'].append(dict(property=i, reason='the check for it is still being built'))
json.dump(M, open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(M['checks']), 'checks,', len(M['not_applicable']), 'not claimed')
