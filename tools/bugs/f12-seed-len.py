prop = 'C12'
needs = 'A seed of 128 bytes or more.'
breaks = 'The top bit of the length of the seed is dropped.'
edits = [
    ('poc/vdaf_poc/xof.py', '        self.h.update(to_le_bytes(len(seed), 1))\n',
     '        self.h.update(to_le_bytes(len(seed) & 0x7F, 1))\n'),
]
demo = '''
from vdaf_poc.common import gen_rand
def verify(v, par, key, ctx, nonce, pub, ins, tamper=None):
    st, sh = [], []
    for j, s in enumerate(ins):
        a, b = v.verify_init(key, ctx, j, par, nonce, pub, s)
        st.append(a)
        sh.append(b)
    for r in range(v.ROUNDS):
        m = v.verifier_shares_to_message(ctx, par, sh)
        if tamper:
            m = tamper(r, m)
        out = [v.verify_next(ctx, s, m) for s in st]
        if r + 1 < v.ROUNDS:
            st, sh = [list(x) for x in zip(*out)]
    return out

from vdaf_poc.xof import XofTurboShake128
from Cryptodome.Hash import TurboSHAKE128
s = bytes(200)
want = TurboSHAKE128.new(domain=1, data=bytes([1, 0]) + b'd' + bytes([200]) + s + b'b').read(16)
assert XofTurboShake128(s, b'd', b'b').next(16) == want
'''
