prop = 'C04'
needs = 'A correlated-randomness stream with a rejected candidate before the level in use.'
breaks = 'The stream is advanced by a fixed number of bytes instead of field elements, so that client and aggregators use different values after a rejected candidate.'
edits = [
    ('poc/vdaf_poc/vdaf_poplar1.py', '            corr_xof.next_vec(field, 3 * level)\n',
     '            if level > 0:\n                corr_xof.next(3 * level * field.ENCODED_SIZE)\n'),
]
demo = '''
from vdaf_poc.common import gen_rand
def verify(v, par, key, ctx, nonce, pub, ins, tamper=None):
    st, sh = [], []
    for j, s in enumerate(ins):
        a, b = v.verify_init(key, ctx, j, par, nonce, pub, s)
        st.append(a)
        sh.append(b)
    for r in range(v.ROUNDS):
        m = v.verifier_shares_to_message(ctx, par, sh)
        if tamper:
            m = tamper(r, m)
        out = [v.verify_next(ctx, s, m) for s in st]
        if r + 1 < v.ROUNDS:
            st, sh = [list(x) for x in zip(*out)]
    return out

from vdaf_poc.vdaf_poplar1 import Poplar1
from vdaf_poc.xof import XofTurboShake128
class X(XofTurboShake128):
    def next(self, n):
        b = super().next(n)
        return bytes([255]) * n if b[0] < 64 else b
v = Poplar1(8)
v.xof = X
a = (True, False) * 4
for lvl in range(8):
    nonce = gen_rand(16)
    pub, ins = v.shard(b'c', a, nonce, gen_rand(v.RAND_SIZE))
    par = (lvl, (a[:lvl + 1],))
    out = verify(v, par, gen_rand(32), b'c', nonce, pub, ins)
    assert v.unshard(par, out, 1) == [1]
'''
