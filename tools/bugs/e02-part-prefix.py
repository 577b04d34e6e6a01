prop = 'C02'
needs = 'An encoded measurement of more than 1024 elements, of which a malicious client chooses the last ones after it knows the joint randomness.'
breaks = 'The joint randomness parts bind only the first 1024 elements of the measurement shares.'
also = ['C21']
edits = [
    ('poc/vdaf_poc/vdaf_prio3.py', '            byte(agg_id) + nonce + self.flp.field.encode_vec(meas_share),\n',
     '            byte(agg_id) + nonce\n            + self.flp.field.encode_vec(meas_share[:1024]),\n'),
]
demo = '''
from vdaf_poc.common import gen_rand
def verify(v, par, key, ctx, nonce, pub, ins, tamper=None):
    st, sh = [], []
    for j, s in enumerate(ins):
        a, b = v.verify_init(key, ctx, j, par, nonce, pub, s)
        st.append(a)
        sh.append(b)
    for r in range(v.ROUNDS):
        m = v.verifier_shares_to_message(ctx, par, sh)
        if tamper:
            m = tamper(r, m)
        out = [v.verify_next(ctx, s, m) for s in st]
        if r + 1 < v.ROUNDS:
            st, sh = [list(x) for x in zip(*out)]
    return out

from vdaf_poc.vdaf_prio3 import Prio3SumVec
v = Prio3SumVec(2, 1100, 1, 100)
F = v.flp.field
a = F.zeros(1100)
b = F.zeros(1099) + [F(5)]
assert v.joint_rand_part(b'x', 0, bytes(32), a, bytes(16)) != v.joint_rand_part(b'x', 0, bytes(32), b, bytes(16))
'''
