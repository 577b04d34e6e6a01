prop = 'C15'
needs = 'A share of measurement and proof that consists of zeros only.'
breaks = 'The verifier share of an all-zero share is taken to be zero, which is wrong for circuits with constants.'
also = ['C16']
edits = [
    ('poc/vdaf_poc/flp_bbcggi19.py', '        # Evaluate the validity circuit, recording the value of each\n        # input wire for each evaluation of each gadget. Use the gadget\n',
     '        zero = self.field(0)\n        if all(x == zero for x in meas) and all(x == zero for x in proof):\n            return self.field.zeros(self.VERIFIER_LEN)\n\n        # Evaluate the validity circuit, recording the value of each\n        # input wire for each evaluation of each gadget. Use the gadget\n'),
]
demo = '''
from vdaf_poc.common import gen_rand
def verify(v, par, key, ctx, nonce, pub, ins, tamper=None):
    st, sh = [], []
    for j, s in enumerate(ins):
        a, b = v.verify_init(key, ctx, j, par, nonce, pub, s)
        st.append(a)
        sh.append(b)
    for r in range(v.ROUNDS):
        m = v.verifier_shares_to_message(ctx, par, sh)
        if tamper:
            m = tamper(r, m)
        out = [v.verify_next(ctx, s, m) for s in st]
        if r + 1 < v.ROUNDS:
            st, sh = [list(x) for x in zip(*out)]
    return out

from vdaf_poc.flp_bbcggi19 import FlpBBCGGI19, Histogram
from vdaf_poc.field import Field128 as F
from vdaf_poc.common import vec_add
f = FlpBBCGGI19(Histogram(F, 4, 2))
m = f.encode(2)
jr, qr = F.rand_vec(f.JOINT_RAND_LEN), F.rand_vec(f.QUERY_RAND_LEN)
p = f.prove(m, F.rand_vec(f.PROVE_RAND_LEN), jr)
a = f.query(m, p, qr, jr, 2)
b = f.query(F.zeros(f.MEAS_LEN), F.zeros(f.PROOF_LEN), qr, jr, 2)
assert f.decide(vec_add(a, b))
'''
