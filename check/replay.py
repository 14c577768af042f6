#!/usr/bin/env python3
"""replay.py FILE: runs the recorded case against /repo's current tree, or shows the failed obligation."""
import json, subprocess, sys, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
r = json.load(open(sys.argv[1]))
if r['kind'] == 'obligation':
    for o in r['failed_obligations']:
        print(o['function'], '-', o['obligation'], '-', o['clause'])
        print(o['rendered'])
    print('checked with:', r['checker_cmd'])
    sys.exit(1)
env = dict(os.environ, CARGO_TARGET_DIR=V + '/harness/target')
subprocess.run(['cargo', 'build', '--offline', '-q'], cwd=V + '/harness', env=env, check=True)
d = sys.argv[1] + '.dict'
open(d, 'w').write(r['dict'])
rc = subprocess.run([V + '/harness/target/debug/harness', r['property'], '--seed', str(r['seed']), '--case', str(r['case']), '--dict', d]).returncode
os.remove(d)
sys.exit(1 if rc else 0)
