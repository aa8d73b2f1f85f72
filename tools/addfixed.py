#!/usr/bin/env python3
"""addfixed.py PROPERTY COMMIT: record a repaired defect in known_findings.json."""
import json, os, subprocess, sys
p = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'known_findings.json')
d = json.load(open(p))
what = subprocess.run(['git', '-C', '/repo', 'log', '-1', '--format=%s', sys.argv[2]], stdout=subprocess.PIPE).stdout.decode().strip().replace('fix: ', '', 1)
d.append({'property': sys.argv[1], 'state': 'fixed', 'commit': sys.argv[2], 'what': what, 'line': 'fixed: property=%s %s %s' % (sys.argv[1], sys.argv[2], what)})
json.dump(d, open(p, 'w'), indent=1); open(p, 'a').write('\n')
