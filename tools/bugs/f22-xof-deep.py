prop = 'C22'
needs = 'Strings of more than 128 bits.'
breaks = 'The levels after the 128th are expanded with the other XOF, by client and aggregators alike.'
edits = [
    ('poc/vdaf_poc/idpf_bbcggi21.py', '        if level < self.BITS-1:\n            return XofFixedKeyAes128(seed, dst, nonce)\n',
     '        if level < min(self.BITS - 1, 128):\n            return XofFixedKeyAes128(seed, dst, nonce)\n'),
]
demo = '''
from vdaf_poc.common import gen_rand
def verify(v, par, key, ctx, nonce, pub, ins, tamper=None):
    st, sh = [], []
    for j, s in enumerate(ins):
        a, b = v.verify_init(key, ctx, j, par, nonce, pub, s)
        st.append(a)
        sh.append(b)
    for r in range(v.ROUNDS):
        m = v.verifier_shares_to_message(ctx, par, sh)
        if tamper:
            m = tamper(r, m)
        out = [v.verify_next(ctx, s, m) for s in st]
        if r + 1 < v.ROUNDS:
            st, sh = [list(x) for x in zip(*out)]
    return out

from vdaf_poc.idpf_bbcggi21 import IdpfBBCGGI21
from vdaf_poc.xof import XofFixedKeyAes128
assert isinstance(IdpfBBCGGI21(2, 150).current_xof(140, bytes(16), b'x', bytes(16)), XofFixedKeyAes128)
'''
