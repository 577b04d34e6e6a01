"""
Auto-dictionary: integer and byte-string constants of the current sources, as
greybox fuzzers extract them. Constants which the sources did not contain when
the framework was written ('new') are fed to the generators first. They steer
workloads only; no verdict depends on them.
"""
import ast
import json
import os


def consts(root):
    ints, strs = set(), set()
    for d, dirs, files in os.walk(root):
        dirs[:] = sorted(x for x in dirs if x not in ('tests', '__pycache__') and not x.endswith('.egg-info'))
        for f in sorted(files):
            if not f.endswith('.py'):
                continue
            try:
                tree = ast.parse(open(os.path.join(d, f), encoding='utf-8').read())
            except Exception:
                continue
            for node in ast.walk(tree):
                if isinstance(node, ast.Constant):
                    v = node.value
                    if isinstance(v, bool):
                        continue
                    if isinstance(v, int):
                        ints.add(v)
                    elif isinstance(v, bytes):
                        strs.add(v.hex())
                elif isinstance(node, ast.BinOp) and isinstance(node.left, ast.Constant) \
                        and isinstance(node.right, ast.Constant):
                    a, b = node.left.value, node.right.value
                    if isinstance(a, int) and isinstance(b, int):
                        try:
                            if isinstance(node.op, ast.Pow) and 0 <= b < 300 and abs(a) < 1000:
                                ints.add(a ** b)
                            elif isinstance(node.op, ast.LShift) and 0 <= b < 300:
                                ints.add(a << b)
                            elif isinstance(node.op, ast.Add):
                                ints.add(a + b)
                            elif isinstance(node.op, ast.Sub):
                                ints.add(a - b)
                            elif isinstance(node.op, ast.Mult):
                                ints.add(a * b)
                        except Exception:
                            pass
    return ints, strs


def words(repo, here):
    base = os.path.join(here, 'vmon', 'dictionary_baseline.json')
    b = json.load(open(base)) if os.path.exists(base) else dict(ints=[], strs=[])
    ints, strs = consts(os.path.join(repo, 'poc', 'vdaf_poc'))
    new_i = sorted(ints - set(b['ints']))
    new_s = sorted(strs - set(b['strs']))
    return dict(new=new_i + new_s, ints=new_i, strs=new_s, all=sorted(ints))


if __name__ == '__main__':
    import sys
    i, s = consts(sys.argv[1])
    json.dump(dict(ints=sorted(i), strs=sorted(s)), sys.stdout)
