"""Run checks against changes described in tools/probes.py, without planting them.

probe.py [-j N] [NAME...]: each probe (name, properties, edits) is applied to a scratch copy of /repo; if the repository's
tests still pass there, the quick check of every listed property is run on the copy and the outcome printed.
"""
import os, shutil, subprocess, sys, tempfile
sys.path.insert(0, os.path.dirname(__file__))
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'


def one(name, props, edits):
    d = tempfile.mkdtemp(prefix='probe-', dir='/tmp')
    try:
        shutil.rmtree(d); shutil.copytree('/repo', d, symlinks=True)
        for mod, old, new in edits:
            f = f'{d}/poc/vdaf_poc/{mod}.py'
            s = open(f).read()
            if s.count(old) != 1:
                print(name, 'BAD EDIT', s.count(old), repr(old[:60]), flush=True)
                return
            open(f, 'w').write(s.replace(old, new))
        r = subprocess.run([PY, '-m', 'unittest', '-q'], cwd=d + '/poc', capture_output=True, text=True)
        if r.returncode:
            print(name, 'TESTS FAIL', r.stderr.strip().splitlines()[-1:], flush=True)
            return
        for p in props:
            env = dict(os.environ, VMON_REPO=d, VMON_EVIDENCE=d + '/ev', VERIF_SEED=os.environ.get('VERIF_SEED', '1'))
            r = subprocess.run([PY, HERE + '/check.py', p, 'quick'], env=env, capture_output=True, text=True)
            first = [l for l in r.stdout.splitlines() if 'VIOLATION' in l]
            print(f'{name:28} {p} exit {r.returncode} {"caught" if r.returncode == 1 and first else "MISSED"}', flush=True)
    finally:
        shutil.rmtree(d)


if __name__ == '__main__':
    import importlib
    names = sys.argv[1:]
    mod = 'probes'
    if names and names[0].startswith('--set='):
        mod = names.pop(0)[6:]
    for p in importlib.import_module(mod).PROBES:
        if not names or any(p[0].startswith(n) for n in names):
            one(*p)
