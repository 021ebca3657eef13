#!/usr/bin/env python3
"""rewrites the 'fixed:' lines of known_findings.txt from tools/fixed_map.txt and /repo's log"""
import subprocess, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
m = dict(l.split() for l in open(R + '/tools/fixed_map.txt'))
kf = R + '/known_findings.txt'
keep = [l for l in open(kf) if not l.startswith('fixed:')] if os.path.exists(kf) else []
log = subprocess.check_output(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s'], text=True).splitlines()
out = []
for l in log:
    h, s = l.split(' ', 1)
    if not s.startswith('fix:'): continue
    if h not in m: print('unmapped', l); continue
    out.append('fixed: property=%s %s %s\n' % (m[h], h, s[5:]))
open(kf, 'w').writelines(keep + out)
