"""Writes MANIFEST.json from the registered harnesses and the notes below."""
import json
import os
import re
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
TECH = 'bounded symbolic execution of the real Python functions, every assertion decided by z3'
TRUST = ('Trusted: the symbolic engine and its models of SQLite, trio and the file system (each run replays '
         'solver-chosen assignments against the unmodified code with real SQLite and compares all outcomes).')
NOTES = {
    'C01': 'One request from an arbitrary valid file system state (inductive step).',
    'C03': 'One request from an arbitrary valid file system state, compared with a specification of the request.',
    'C04': 'One request from an arbitrary valid file system state with arbitrary immutability flags / failsafe mode.',
}
exec(open(os.path.join(HERE, 'tools', 'notes.py')).read() if os.path.exists(os.path.join(HERE, 'tools', 'notes.py')) else '')
NA = globals().get('NA', {})
TECHS = globals().get('TECHS', {})


def claimed():
    out = set()
    for f in os.listdir(os.path.join(HERE, 'checks')):
        if f.endswith('.py') and not f.startswith('_'):
            m = re.search(r'^PROPERTIES = (\[.*?\])', open(os.path.join(HERE, 'checks', f)).read(), re.M)
            if m:
                out |= set(eval(m.group(1)))
    return out


def main():
    c = claimed()
    checks, na = [], []
    for l in open(os.path.join(HERE, 'properties.jsonl')):
        p = json.loads(l)['id']
        if p in c:
            checks.append(dict(property=p, quick_cmd='./check.py %s --tier quick' % p,
                               thorough_cmd='./check.py %s --tier thorough' % p,
                               technique=TECHS.get(p, TECH), level='model_checking',
                               level_note=(NOTES.get(p, '') + ' Exhaustive within the bounds listed in the evidence '
                                           'file and DESIGN.md; nothing is claimed outside them. ' + TRUST).strip()))
        else:
            na.append(dict(property=p, reason=NA.get(p, 'No solver-based check has been built for this property yet.')))
    json.dump(dict(version=1, setup_cmd='/opt/veriftools/pyvenv/bin/python3 tools/setup.py', checks=checks,
                   not_applicable=na), open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
    print(len(checks), 'claimed', [x['property'] for x in na])


main()
