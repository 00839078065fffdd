#!/usr/bin/env python3
"""mkseed.py ID property file 'old' 'new' needs breaks < demo.sh : create seeded/ID from a one-place textual change"""
import sys, os, json, subprocess
i, p, f, old, new, needs, br = sys.argv[1:8]
s = open('/repo/' + f).read()
assert s.count(old) == 1, s.count(old)
open('/repo/' + f, 'w').write(s.replace(old, new))
d = '/verif/seeded/' + i
os.makedirs(d, exist_ok=True)
open(d + '/patch.diff', 'w').write(subprocess.run(['git', '-C', '/repo', 'diff'], capture_output=True, text=True).stdout)
subprocess.run(['git', '-C', '/repo', 'checkout', '-q', '--', '.'])
json.dump(dict(property=p, needs=needs, what_it_breaks=br), open(d + '/meta.json', 'w'), indent=1)
open(d + '/demo.sh', 'w').write(sys.stdin.read())
