#!/usr/bin/env python3
"""Development tool: records the functions of the unchanged tree (verus/baseline.json), so that a check can tell a function that
is new, gone or has other loops than the ones its invariants were written for.  usage: mkbaseline.py SCRATCH-DIR"""
import json, os, subprocess, sys
H = os.path.dirname(os.path.abspath(__file__))
d = sys.argv[1]
subprocess.check_call([sys.executable, H + '/gen.py', d + '/c'])
vcs = sorted(d + '/c/' + f for f in os.listdir(d + '/c') if f.endswith('.vc') and f < '30')
subprocess.check_call([H + '/../extractor/target/release/extractor', '/repo/src'] + vcs + ['--', d + '/o.rs', d + '/i.json'])
i = json.load(open(d + '/i.json'))
assert not i['problems'] and not i['missing_contract_targets'], (i['problems'], i['missing_contract_targets'])
b = {'functions': {}}
for f in i['functions']:
    assert f['key'] not in b['functions'], f['key']
    b['functions'][f['key']] = {'module': f['module'], 'loops': f['loops']}
json.dump(b, open(H + '/baseline.json', 'w'), indent=0)
print(len(b['functions']))
