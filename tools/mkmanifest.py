#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py and properties.jsonl."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, os.path.join(H, 'tools'))
import checks
props = [json.loads(l) for l in open(H + '/properties.jsonl')]
NA = getattr(checks, 'NOT_APPLICABLE', {})
m = dict(version=1, setup_cmd='bash setup.sh', checks=[], not_applicable=[],
  hooks=dict(guard='none', enable='the checks need no hooks: the unmodified headers and sources of /repo are compiled to LLVM IR and encoded', source_commits=[]),
  notes='The encoding is regenerated from /repo on every run. See DESIGN.md.')
for p in props:
    i = p['id']
    if i in checks.CHECKS:
        m['checks'].append(dict(property=i, quick_cmd='python3 check.py %s --tier quick' % i, thorough_cmd='python3 check.py %s --tier thorough' % i, evidence_file='evidence/%s.json' % i,
          technique=checks.TECHNIQUE.get(i, checks.TECHNIQUE['*']), level='model_checking', level_note=checks.NOTE.get(i, checks.NOTE['*'])))
    else: m['not_applicable'].append(dict(property=i, reason=NA.get(i, 'no check registered yet')))
json.dump(m, open(H + '/MANIFEST.json', 'w'), indent=1); open(H + '/MANIFEST.json', 'a').write('\n')
