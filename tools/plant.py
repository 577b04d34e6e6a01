"""Confirms planted bugs in scratch copies and stores them under /verif/seeded.

usage: plant.py [-n] [ID...]    (definitions in tools/bugs/*.py; -n: do not run the checks)

A definition file sets prop, needs, breaks, edits = [(file, old, new), ...] and demo (Python source; it
fails by raising or by a nonzero exit).  Each `old` must occur exactly once in its file.
"""
import json
import os
import re
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
PY = '/opt/venv/bin/python'
DEMO = '#!/bin/bash\nexec env PYTHONPATH="$PWD/poc" /opt/venv/bin/python -B "$(dirname "$0")/demo.py"\n'


def sh(cmd, cwd=None, env=None, timeout=900):
    return subprocess.run(cmd, shell=True, cwd=cwd, env=dict(os.environ, **(env or {})), capture_output=True, text=True, timeout=timeout)


def stable():
    b = json.load(open('/opt/vp/BASELINE.json'))
    for k in ('stable', 'tests', 'passed'):
        if k in b:
            return set(b[k])
    raise SystemExit(list(b))


def tests(copy):
    """The stable tests that do not pass in the copy."""
    s = open('/opt/vp/test.sh').read().replace('cd /repo/poc', f'cd {copy}/poc')
    f = copy + '.sh'
    open(f, 'w').write(s)
    sh(f'bash {f} {copy}.json')
    r = json.load(open(copy + '.json'))
    os.remove(f)
    os.remove(copy + '.json')
    ok = set(r['passed'])
    return sorted(stable() - ok)


def copy_repo(name):
    c = f'/tmp/plant-{os.getpid()}-{name}'
    shutil.copytree('/repo', c, symlinks=True)
    return c


def main(argv):
    nocheck = '-n' in argv
    ids = [a for a in argv if a != '-n'] or sorted(f[:-3] for f in os.listdir(HERE + '/bugs') if f.endswith('.py'))
    table = []
    for i in ids:
        d = {}
        exec(open(f'{HERE}/bugs/{i}.py').read(), d)
        c = copy_repo(i)
        try:
            out = f'{ROOT}/seeded/{i}'
            os.makedirs(c + '.demo', exist_ok=True)
            open(c + '.demo/demo.sh', 'w').write(DEMO)
            open(c + '.demo/demo.py', 'w').write(d['demo'].lstrip('\n'))
            a = sh(f'bash {c}.demo/demo.sh', cwd=c, timeout=300)
            for f, old, new in d['edits']:
                s = open(f'{c}/{f}').read()
                assert s.count(old) == 1, (i, f, s.count(old), old)
                open(f'{c}/{f}', 'w').write(s.replace(old, new))
            b = sh(f'bash {c}.demo/demo.sh', cwd=c, timeout=300)
            bad = tests(c)
            sh('git clean -fdxq', cwd=c)
            st = sh('git status --short', cwd=c).stdout
            good = a.returncode == 0 and b.returncode != 0 and not bad
            line = f'{i} {d["prop"]}: demo {a.returncode}->{b.returncode}, tests failing {bad[:3]}'
            if a.returncode:
                line += '\n' + a.stderr[-800:]
            if good:
                os.makedirs(out, exist_ok=True)
                diff = sh('git diff', cwd=c).stdout
                open(out + '/patch.diff', 'w').write(diff)
                for f in ('demo.sh', 'demo.py'):
                    shutil.copy(f'{c}.demo/{f}', f'{out}/{f}')
                json.dump({'property': d['prop'], 'needs': d['needs'], 'what_it_breaks': d['breaks']}, open(out + '/meta.json', 'w'), indent=1)
            elif os.path.isdir(out):
                shutil.rmtree(out)
            if good and not nocheck:
                for p in [d['prop']] + list(d.get('also', [])):
                    r = sh(f'{PY} -B check.py {p} quick', cwd=ROOT, env=dict(VMON_REPO=c, VERIF_SEED='1', VERIF_TIER='quick'))
                    m = re.search(r'VIOLATION property=(\w+)', r.stdout)
                    line += f' | {p} exit {r.returncode} {"caught" if r.returncode == 1 and m else "MISSED"}'
                    if r.returncode == 1:
                        line += ' ' + ' '.join(r.stdout.split())[:260]
                    elif r.returncode:
                        line += ' ' + (r.stdout + r.stderr)[-300:]
            print(('OK   ' if good else 'BAD  ') + line, flush=True)
        finally:
            shutil.rmtree(c, ignore_errors=True)
            shutil.rmtree(c + '.demo', ignore_errors=True)


main(sys.argv[1:])
