prop = 'C20'
needs = 'A multi-proof report with five or more proofs.'
breaks = 'The randomness of the proofs repeats after four, so that later proofs are not masked by fresh randomness.'
also = ['C21']
edits = [
    ('poc/vdaf_poc/vdaf_prio3.py', '            byte(self.PROOFS),\n            self.flp.PROVE_RAND_LEN * self.PROOFS,\n        )\n',
     '            byte(self.PROOFS),\n            self.flp.PROVE_RAND_LEN * min(self.PROOFS, 4),\n        ) * ((self.PROOFS + 3) // 4)\n'),
]
demo = '''
from vdaf_poc.common import gen_rand
def verify(v, par, key, ctx, nonce, pub, ins, tamper=None):
    st, sh = [], []
    for j, s in enumerate(ins):
        a, b = v.verify_init(key, ctx, j, par, nonce, pub, s)
        st.append(a)
        sh.append(b)
    for r in range(v.ROUNDS):
        m = v.verifier_shares_to_message(ctx, par, sh)
        if tamper:
            m = tamper(r, m)
        out = [v.verify_next(ctx, s, m) for s in st]
        if r + 1 < v.ROUNDS:
            st, sh = [list(x) for x in zip(*out)]
    return out

from vdaf_poc.vdaf_prio3 import Prio3SumVecWithMultiproof
from vdaf_poc.field import Field64
v = Prio3SumVecWithMultiproof(2, Field64, 6, 3, 1, 2)
r = v.prove_rands(b'c', bytes(32))
n = v.flp.PROVE_RAND_LEN
assert r[:n] != r[4 * n:5 * n]
'''
