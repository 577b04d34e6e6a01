prop = 'C24'
needs = 'A verification key that is longer than declared.'
breaks = 'The driver runs with an oversized key instead of refusing it.'
edits = [
    ('poc/vdaf_poc/vdaf.py', "    if len(verify_key) != vdaf.VERIFY_KEY_SIZE:\n        raise ValueError(\"incorrect verify_key size\")\n",
     "    if len(verify_key) < vdaf.VERIFY_KEY_SIZE:\n        raise ValueError(\"incorrect verify_key size\")\n"),
]
demo = '''
from vdaf_poc.vdaf import run_vdaf
from vdaf_poc.vdaf_prio3 import Prio3Count
v = Prio3Count(2)
assert run_vdaf(v, bytes(32), None, b'x', [1, 0, 1]) == 2
for n in (0, 31, 33, 64):
    try:
        run_vdaf(v, bytes(n), None, b'x', [1, 0, 1])
    except Exception:
        continue
    raise SystemExit(1)
'''
