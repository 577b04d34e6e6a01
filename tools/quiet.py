#!/usr/bin/env python3
"""Run the checks against behaviour-preserving rewrites of the code.

    quiet.py [NAME...] [--checks C01,C02] [--tests-only]

Each tools/refactors/NAME.py defines EDITS: a list of (module, qualified name, new source), where the named function (or
class) of poc/vdaf_poc/<module>.py is replaced, or (module, None, source) to append at the end of the file. The rewrite is
made in a copy under /tmp, the repository's tests must still pass there, and every check must exit 0."""
import ast
import os
import runpy
import shutil
import subprocess
import sys
import textwrap

HERE = os.path.dirname(os.path.abspath(__file__))
PY = '/opt/venv/bin/python'


def find(tree, qual):
    nodes = tree.body
    for part in qual.split('.'):
        n = next(x for x in nodes if isinstance(x, (ast.FunctionDef, ast.ClassDef)) and x.name == part
                 and not any(getattr(d, 'id', '') == 'overload' for d in x.decorator_list))
        nodes = n.body
    return n


def rewrite(path, qual, src):
    text = open(path).read()
    src = textwrap.dedent(src).strip('\n')
    if qual is None:
        open(path, 'w').write(text + '\n\n' + src + '\n')
        return
    n = find(ast.parse(text), qual)
    lines = text.split('\n')
    start = min([n.lineno] + [d.lineno for d in n.decorator_list]) - 1
    indent = ' ' * n.col_offset
    lines[start:n.end_lineno] = [indent + x if x else x for x in src.split('\n')]
    open(path, 'w').write('\n'.join(lines))


def main(argv):
    checks = [f'C{i:02}' for i in range(1, 25)]
    names = []
    tests_only = False
    for a in argv:
        if a.startswith('--checks='):
            checks = a[9:].split(',')
        elif a == '--tests-only':
            tests_only = True
        else:
            names.append(a)
    names = names or sorted(x[:-3] for x in os.listdir(os.path.join(HERE, 'refactors')) if x.endswith('.py'))
    bad = 0
    for name in names:
        copy = f'/tmp/quiet-{name}'
        shutil.rmtree(copy, ignore_errors=True)
        shutil.copytree('/repo', copy, ignore=shutil.ignore_patterns('.git', '__pycache__'))
        for mod, qual, src in runpy.run_path(os.path.join(HERE, 'refactors', name + '.py'))['EDITS']:
            rewrite(f'{copy}/poc/vdaf_poc/{mod}.py', qual, src)
        r = subprocess.run([PY, '-m', 'unittest', '-q'], cwd=copy + '/poc', capture_output=True, text=True)
        print(f'{name}: tests {"pass" if r.returncode == 0 else "FAIL " + r.stderr[-600:]}', flush=True)
        if r.returncode == 0 and not tests_only:
            for c in checks:
                env = dict(os.environ, VMON_REPO=copy, VMON_EVIDENCE=f'{copy}/ev')
                r = subprocess.run([PY, 'check.py', c, 'quick'], cwd=os.path.dirname(HERE), capture_output=True, text=True, env=env)
                if r.returncode:
                    bad += 1
                    print(f'{name}: {c} exit {r.returncode}: {r.stdout[-900:]}', flush=True)
            print(f'{name}: done', flush=True)
        shutil.rmtree(copy, ignore_errors=True)
    return int(bad > 0)


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
