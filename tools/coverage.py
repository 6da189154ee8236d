#!/usr/bin/env python3
"""Development only: COVERAGE.md from the evidence files of the last runs
(run every quick check first)."""
import glob
import json
import os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = ['# What the quick checks covered', '',
       'Generated by `tools/coverage.py` from `evidence/*.json` of one run of every',
       'quick check on the unchanged tree (8 cores, otherwise idle).  `executions` are',
       'complete runs of the code in /repo; `nodes` are states of the choice tree /',
       'state space, `steps` scheduler steps or operations; `outcomes` are distinct',
       'observed results.', '']
for f in sorted(glob.glob(os.path.join(HERE, 'evidence', 'C*.json'))):
    d = json.load(open(f))
    c = d['coverage']
    out.append(f"## {d['property']} ({d['tier']}, {d['wall_s']:.0f} s, exhaustive within bounds: {c['exhaustive']})")
    out.append('')
    out.append('| group | kind | scenarios | executions | nodes | steps | outcomes |')
    out.append('|---|---|---|---|---|---|---|')
    for g in c['groups']:
        kind = g['kind']
        if 'deviation_bound' in g:
            kind += f" (bound {g['deviation_bound']})"
        out.append(f"| {g['group']} | {kind} | {g['scenarios']} | {g['executions']} | {g['nodes']} | {g['steps']} | {g['distinct_outcomes']} |")
    out.append('')
open(os.path.join(HERE, 'COVERAGE.md'), 'w').write('\n'.join(out))
