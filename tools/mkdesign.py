#!/usr/bin/env python3
"""Writes /verif/DESIGN.md: design_head.md, one paragraph per check, design_tail.md."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V + '/lib', V + '/checks']
sys.dont_write_bytecode = True
import registry
ch = registry.all_checks()
out = [open(V + '/tools/design_head.md').read()]
for p in map(json.loads, open(V + '/properties.jsonl')):
    c = ch[p['id']]
    out.append('**%s %s** (N = %s / %s; builds: %s)\n*Oracle:* %s.\n*Workload and evidence:* %s.\n*Bounds:* %s.\n\n' % (
        p['id'], p['title'], c.quick, c.thorough, ', '.join(c.variants) or 'the python script', c.technique.split(': ', 1)[-1], c.rule, c.level_note))
out.append(open(V + '/tools/design_tail.md').read())
open(V + '/DESIGN.md', 'w').write(''.join(out))
