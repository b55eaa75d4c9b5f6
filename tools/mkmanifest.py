#!/usr/bin/env python3
# Writes MANIFEST.json: which properties are claimed, and by which command.
import json, re, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(here + '/properties.jsonl')]
claimed = json.load(open(here + '/tools/claims.json'))
na = claimed['not_applicable']
checks = []
for p in props:
    i = p['id']
    if i in claimed['checks']:
        c = claimed['checks'][i]
        checks.append({
            'property': i,
            'quick_cmd': './check.sh ' + i,
            'thorough_cmd': './check.sh ' + i,
            'technique': c['technique'],
            'level': 'exploration',
            'level_note': c['note'],
        })
    elif i not in na:
        na[i] = 'no check has been built for it yet'
m = {
    'version': 1,
    'setup_cmd': './setup.sh',
    'hooks': {'guard': 'verif', 'enable': 'no guarded hooks are needed: monitors attach through the public hook API; they are compiled into the module with go build -overlay (see check.sh)', 'source_commits': []},
    'checks': checks,
    'not_applicable': [{'property': k, 'reason': v} for k, v in sorted(na.items())],
}
json.dump(m, open(here + '/MANIFEST.json', 'w'), indent=1, ensure_ascii=False)
open(here + '/MANIFEST.json', 'a').write('\n')
print(len(checks), 'claimed')
