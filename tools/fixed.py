#!/usr/bin/env python3
# fixed.py PROP "what failed"  -- records the last /repo commit as the repair of a genuine defect
import json, subprocess, sys, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
h = sys.argv[3] if len(sys.argv) > 3 else subprocess.run(['git', '-C', '/repo', 'rev-parse', '--short', 'HEAD'], capture_output=True, text=True).stdout.strip()
k = json.load(open(V + '/known-findings.json'))
k.append(dict(property=sys.argv[1], status='fixed', what='fixed: property=%s %s %s' % (sys.argv[1], h, sys.argv[2])))
json.dump(k, open(V + '/known-findings.json', 'w'), indent=1)
