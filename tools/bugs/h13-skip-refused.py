prop = 'C24'
needs = 'A batch containing a measurement that cannot be sharded.'
breaks = 'The driver skips measurements that are refused and returns a result for the others.'
edits = [
    ('poc/vdaf_poc/vdaf.py', '        (public_share, input_shares) = \\\n            vdaf.shard(ctx, measurement, nonce, rand)\n',
     '        try:\n            (public_share, input_shares) = \\\n                vdaf.shard(ctx, measurement, nonce, rand)\n        except ValueError:\n            continue  # not a valid measurement\n'),
]
demo = '''
from vdaf_poc.common import gen_rand
def verify(v, par, key, ctx, nonce, pub, ins, tamper=None):
    st, sh = [], []
    for j, s in enumerate(ins):
        a, b = v.verify_init(key, ctx, j, par, nonce, pub, s)
        st.append(a)
        sh.append(b)
    for r in range(v.ROUNDS):
        m = v.verifier_shares_to_message(ctx, par, sh)
        if tamper:
            m = tamper(r, m)
        out = [v.verify_next(ctx, s, m) for s in st]
        if r + 1 < v.ROUNDS:
            st, sh = [list(x) for x in zip(*out)]
    return out

from vdaf_poc.vdaf_prio3 import Prio3Count
from vdaf_poc.vdaf import run_vdaf
assert run_vdaf(Prio3Count(2), gen_rand(32), None, b'c', [1, 0, 1]) == 2
try:
    run_vdaf(Prio3Count(2), gen_rand(32), None, b'c', [1, 2, 1])
except Exception:
    pass
else:
    raise SystemExit(1)
'''
