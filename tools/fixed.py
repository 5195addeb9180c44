"""Adds a repaired defect to known_findings.json: fixed.py PROPERTY 'text' [commit subject substring]"""
import json
import subprocess
import sys
F = '/verif/known_findings.json'
d = json.load(open(F))
p, what, sub = sys.argv[1:4]
for l in subprocess.check_output(['git', '-C', '/repo', 'log', '--format=%h %s'], text=True).splitlines():
    h, s = l.split(' ', 1)
    if sub in s:
        d['fixed'].append('fixed: property=%s %s %s' % (p, h, what))
        break
else:
    sys.exit('no such commit')
json.dump(d, open(F, 'w'), indent=1)
