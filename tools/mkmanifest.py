#!/usr/bin/env python3
"""Write /verif/MANIFEST.json from properties.jsonl and the property modules present."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {
    'C25': 'Simulation-based privacy quantifies over distributions of views and over all strategies of an adversary; '
           'no oracle over recorded executions can decide it. The executable part (shares independent of the measurement, '
           'masks covering every element) is claimed as C20.',
}
FAULT = {'C03', 'C11', 'C19'}


def main():
    props = [json.loads(x) for x in open(os.path.join(HERE, 'properties.jsonl'))]
    tech = json.load(open(os.path.join(HERE, 'tools', 'technique.json')))
    checks, na = [], []
    for p in props:
        i = p['id']
        if os.path.exists(os.path.join(HERE, 'vmon', 'props', i.lower() + '.py')):
            t = tech[i]
            checks.append(dict(
                property=i,
                quick_cmd=f'/opt/venv/bin/python check.py {i} quick',
                thorough_cmd=f'/opt/venv/bin/python check.py {i} thorough',
                evidence_file=f'evidence/{i}.json',
                technique=t['technique'],
                level='fault_enumeration' if i in FAULT else 'exploration',
                level_note=t['note']))
        else:
            na.append(dict(property=i, reason=NA.get(i, 'check not built yet')))
    m = dict(version=1,
             setup_cmd='/opt/venv/bin/python -B check.py --setup',
             checks=checks, not_applicable=na,
             notes='All checks import the code from /repo/poc as it stands (pure Python, nothing to build) and need no '
                   'hooks in /repo. Replays: /opt/venv/bin/python check.py --replay FILE.')
    json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
    open(os.path.join(HERE, 'MANIFEST.json'), 'a').write('\n')
    print(len(checks), 'checks', len(na), 'not applicable')


main()
