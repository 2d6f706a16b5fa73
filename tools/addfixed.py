#!/usr/bin/env python3
"""addfixed.py COMMIT=PROPERTY ...: records fix commits of /repo in known_findings.json."""
import json, subprocess, sys, os
p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'known_findings.json')
d = json.load(open(p))
for a in sys.argv[1:]:
    c, prop = a.split('=')
    msg = subprocess.check_output(['git', '-C', '/repo', 'log', '-1', '--format=%h %s', c], text=True).strip()
    h, _, s = msg.partition(' fix: ')
    d['fixed'].append('fixed: property=%s %s %s' % (prop, h, s))
json.dump(d, open(p, 'w'), indent=1)
open(p, 'a').write('\n')
