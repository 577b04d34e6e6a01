"""Mutation analysis: which small changes pass the repository's tests, and which checks report them.

usage: mutate.py filter OUT.jsonl            all mutants the repository's tests do not notice
       mutate.py check IN.jsonl OUT.jsonl    run the checks on these until one reports (resumes)

Mutants are single edits of the syntax tree of poc/vdaf_poc/*.py, made in scratch copies under /tmp.
"""
import ast
import copy
import json
import os
import random
import shutil
import subprocess
import sys
from concurrent.futures import ProcessPoolExecutor, as_completed

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
FILES = ['common', 'daf', 'field', 'flp', 'flp_bbcggi19', 'idpf_bbcggi21', 'test_utils', 'vdaf', 'vdaf_ping_pong', 'vdaf_poplar1', 'vdaf_prio3', 'xof']
CMP = {ast.Lt: [ast.LtE, ast.Gt], ast.LtE: [ast.Lt], ast.Gt: [ast.GtE, ast.Lt], ast.GtE: [ast.Gt], ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq],
       ast.In: [ast.NotIn], ast.NotIn: [ast.In], ast.Is: [ast.IsNot], ast.IsNot: [ast.Is]}
BIN = {ast.Add: [ast.Sub], ast.Sub: [ast.Add], ast.Mult: [ast.Add], ast.FloorDiv: [ast.Mult], ast.Mod: [ast.FloorDiv], ast.BitAnd: [ast.BitOr],
       ast.BitOr: [ast.BitAnd], ast.BitXor: [ast.BitOr], ast.LShift: [ast.RShift], ast.RShift: [ast.LShift], ast.Pow: [ast.Mult]}


def sites(tree):
    """Yields (description, function(tree copy) applying the change) for a parsed module."""
    nodes = list(ast.walk(tree))
    for k, n in enumerate(nodes):
        ln = getattr(n, 'lineno', 0)

        def at(f, k=k):
            def go():
                t = copy.deepcopy(tree)
                f(list(ast.walk(t))[k], t)
                return t
            return go
        if isinstance(n, ast.Compare):
            for i, o in enumerate(n.ops):
                for new in CMP.get(type(o), []):
                    def f(m, t, i=i, new=new):
                        m.ops[i] = new()
                    yield f'{ln}: {type(o).__name__} -> {new.__name__}', at(f)
        if isinstance(n, (ast.BinOp, ast.AugAssign)):
            for new in BIN.get(type(n.op), []):
                def f(m, t, new=new):
                    m.op = new()
                yield f'{ln}: {type(n.op).__name__} -> {new.__name__}', at(f)
        if isinstance(n, ast.BoolOp):
            def f(m, t):
                m.op = ast.And() if isinstance(m.op, ast.Or) else ast.Or()
            yield f'{ln}: and/or', at(f)
        if isinstance(n, ast.Constant) and isinstance(n.value, int) and not isinstance(n.value, bool):
            for d in (1, -1):
                def f(m, t, d=d):
                    m.value += d
                yield f'{ln}: {n.value} -> {n.value + d}', at(f)
        if isinstance(n, ast.Constant) and isinstance(n.value, bool):
            def f(m, t):
                m.value = not m.value
            yield f'{ln}: {n.value} -> {not n.value}', at(f)
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub, ast.Not)):
            def f(m, t):
                m.op = ast.UAdd() if isinstance(m.op, ast.USub) else ast.Not()
                if isinstance(m.op, ast.Not):
                    m.operand = ast.UnaryOp(ast.Not(), m.operand)
            yield f'{ln}: drop {type(n.op).__name__}', at(f)
        if isinstance(n, ast.Slice):
            for part in ('lower', 'upper'):
                if getattr(n, part):
                    def f(m, t, part=part):
                        setattr(m, part, None)
                    yield f'{ln}: drop slice {part}', at(f)
        if isinstance(n, ast.If):
            def f(m, t):
                m.test = ast.Constant(False)
            yield f'{ln}: if False', at(f)
            def f(m, t):
                m.test = ast.Constant(True)
            yield f'{ln}: if True', at(f)
        if isinstance(n, ast.Call) and len(n.args) >= 2:
            for i in range(len(n.args) - 1):
                def f(m, t, i=i):
                    m.args[i], m.args[i + 1] = m.args[i + 1], m.args[i]
                yield f'{ln}: swap arguments {i}, {i + 1}', at(f)
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ('list', 'tuple', 'bytes', 'deepcopy') and len(n.args) == 1:
            def f(m, t):
                parent(t, m, m.args[0])
            yield f'{ln}: drop {n.func.id}()', at(f)
        if isinstance(n, (ast.FunctionDef, ast.If, ast.For, ast.While)):
            for i, s in enumerate(n.body):
                if isinstance(s, (ast.Expr, ast.Assign, ast.AugAssign, ast.Raise, ast.If, ast.For, ast.Assert)) and not \
                        (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)):
                    def f(m, t, i=i):
                        m.body[i] = ast.Pass()
                    yield f'{s.lineno}: drop {type(s).__name__}', at(f)


def parent(t, node, new):
    for p in ast.walk(t):
        for name, v in ast.iter_fields(p):
            if v is node:
                setattr(p, name, new)
            elif isinstance(v, list):
                for i, x in enumerate(v):
                    if x is node:
                        v[i] = new


def checks_for(f):
    out = []
    for l in open(ROOT + '/properties.jsonl'):
        p = json.loads(l)
        if p['id'] != 'C25' and any(a.endswith(f'/{f}.py') for a in p['anchors']['files']):
            out.append(p['id'])
    return out


ORDER = ['C13', 'C24', 'C14', 'C15', 'C16', 'C09', 'C11', 'C18', 'C23', 'C12', 'C08', 'C10', 'C05', 'C02', 'C22', 'C21', 'C17', 'C01', 'C19', 'C03', 'C04', 'C07', 'C06', 'C20']


def sh(cmd, cwd=None, env=None, timeout=600):
    try:
        return subprocess.run(cmd, cwd=cwd, env=dict(os.environ, **(env or {})), capture_output=True, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        return None


def scratch():
    c = f'/tmp/mut-{os.getpid()}'
    if not os.path.exists(c):
        shutil.copytree('/repo', c, symlinks=True)
    return c


def mutants():
    for f in FILES:
        src = open(f'/repo/poc/vdaf_poc/{f}.py').read()
        for k, (desc, fn) in enumerate(sites(ast.parse(src))):
            yield f, k, desc, src


def apply(c, f, k):
    src = open(f'/repo/poc/vdaf_poc/{f}.py').read()
    for i, (desc, fn) in enumerate(sites(ast.parse(src))):
        if i == k:
            new = ast.unparse(ast.fix_missing_locations(fn()))
            with open(f'{c}/poc/vdaf_poc/{f}.py', 'w') as o:
                o.write(new)
            return


def restore(c, f):
    shutil.copy(f'/repo/poc/vdaf_poc/{f}.py', f'{c}/poc/vdaf_poc/{f}.py')


def filter_one(m):
    f, k, desc = m
    c = scratch()
    try:
        apply(c, f, k)
        r = sh([PY, '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider', '-p', 'pytest_timeout', '--timeout=60', '-o', 'python_functions=__none__',
                '-o', 'python_classes=__none__', 'tests', 'example_flp_shamir.py'], cwd=c + '/poc',
               env=dict(PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', PYTEST_DISABLE_PLUGIN_AUTOLOAD='1'), timeout=200)
        return r is not None and r.returncode == 0
    finally:
        restore(c, f)


def check_one(m):
    c = scratch()
    ev = c + '.ev'
    rec = dict(m, by=None, odd=[])
    try:
        apply(c, m['file'], m['k'])
        mine = checks_for(m['file'])
        for p in [p for p in ORDER if p in mine] + [p for p in ORDER if p not in mine and m.get('all')]:
            r = sh([PY, '-B', 'check.py', p, 'quick'], cwd=ROOT, env=dict(VMON_REPO=c, VERIF_SEED='1', VMON_JOBS='1', VMON_EVIDENCE=ev), timeout=1500)
            if r is None or r.returncode == 1:
                rec.update(by=p, how='timeout' if r is None else ' '.join(r.stdout.split())[-500:])
                break
            if r.returncode != 0:
                rec['odd'].append((p, r.returncode))
    finally:
        restore(c, m['file'])
        shutil.rmtree(ev, ignore_errors=True)
    return rec


def main():
    if sys.argv[1] == 'filter':
        ms = list(mutants())
        lines = {f: src.split('\n') for f, _, _, src in ms}
        ms = [(f, k, d) for f, k, d, _ in ms]
        with ProcessPoolExecutor(8) as ex, open(sys.argv[2], 'w') as o:
            for (f, k, d), ok in zip(ms, ex.map(filter_one, ms)):
                if ok:
                    o.write(json.dumps(dict(file=f, k=k, desc=d, line=lines[f][int(d.split(':')[0]) - 1].strip())) + '\n')
                    o.flush()
    else:
        ms = [json.loads(l) for l in open(sys.argv[2])]
        seen = set()
        if os.path.exists(sys.argv[3]):
            seen = {(d['file'], d['k']) for d in map(json.loads, open(sys.argv[3]))}
        ms = [m for m in ms if (m['file'], m['k']) not in seen]
        random.Random(1).shuffle(ms)
        with ProcessPoolExecutor(int(os.environ.get('JOBS', '7'))) as ex, open(sys.argv[3], 'a') as o:
            for fut in as_completed([ex.submit(check_one, m) for m in ms]):
                o.write(json.dumps(fut.result()) + '\n')
                o.flush()
    for d in os.listdir('/tmp'):
        if d.startswith('mut-'):
            shutil.rmtree('/tmp/' + d, ignore_errors=True)


main()
