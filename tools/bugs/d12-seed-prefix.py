prop = 'C11'
needs = 'A finish message whose joint randomness seed is altered in its second half.'
breaks = 'Only the first half of the joint randomness seed is compared, so the alteration goes unnoticed.'
edits = [
    ('poc/vdaf_poc/vdaf_prio3.py', "        if joint_rand_seed != corrected_joint_rand_seed:\n            raise ValueError('joint randomness check failed')\n",
     "        if (joint_rand_seed or b'')[:16] != \\\n                (corrected_joint_rand_seed or b'')[:16]:\n            raise ValueError('joint randomness check failed')\n"),
]
demo = '''
from vdaf_poc.common import gen_rand
def verify(v, par, key, ctx, nonce, pub, ins, tamper=None):
    st, sh = [], []
    for j, s in enumerate(ins):
        a, b = v.verify_init(key, ctx, j, par, nonce, pub, s)
        st.append(a)
        sh.append(b)
    for r in range(v.ROUNDS):
        m = v.verifier_shares_to_message(ctx, par, sh)
        if tamper:
            m = tamper(r, m)
        out = [v.verify_next(ctx, s, m) for s in st]
        if r + 1 < v.ROUNDS:
            st, sh = [list(x) for x in zip(*out)]
    return out

from vdaf_poc.vdaf_prio3 import Prio3Histogram
v = Prio3Histogram(2, 4, 2)
n = gen_rand(16)
pub, ins = v.shard(b'c', 1, n, gen_rand(v.RAND_SIZE))
verify(v, None, bytes(32), b'c', n, pub, ins)
try:
    verify(v, None, bytes(32), b'c', n, pub, ins, lambda r, m: m[:-1] + bytes([m[-1] ^ 1]))
except ValueError:
    pass
else:
    raise SystemExit('accepted')
'''
