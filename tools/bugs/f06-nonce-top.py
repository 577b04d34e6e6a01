prop = 'C06'
needs = 'Two nonces that differ only in their first byte.'
breaks = 'The first byte of the nonce does not enter the query randomness and the joint randomness.'
also = ['C21']
edits = [
    ('poc/vdaf_poc/vdaf_prio3.py', '            byte(self.PROOFS) + nonce,\n            self.flp.QUERY',
     '            byte(self.PROOFS) + zeros(1) + nonce[1:],\n            self.flp.QUERY'),
]
demo = '''
from vdaf_poc.common import gen_rand
def verify(v, par, key, ctx, nonce, pub, ins, tamper=None):
    st, sh = [], []
    for j, s in enumerate(ins):
        a, b = v.verify_init(key, ctx, j, par, nonce, pub, s)
        st.append(a)
        sh.append(b)
    for r in range(v.ROUNDS):
        m = v.verifier_shares_to_message(ctx, par, sh)
        if tamper:
            m = tamper(r, m)
        out = [v.verify_next(ctx, s, m) for s in st]
        if r + 1 < v.ROUNDS:
            st, sh = [list(x) for x in zip(*out)]
    return out

from vdaf_poc.vdaf_prio3 import Prio3Count
v = Prio3Count(2)
assert v.query_rands(bytes(32), b'c', bytes(16)) != v.query_rands(bytes(32), b'c', bytes([1]) + bytes(15))
'''
