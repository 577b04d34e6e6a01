prop = 'C07'
needs = 'Strings of more than 1024 bits with a one among the bits behind 1024.'
breaks = 'The control bit of nodes below level 1024 is always that of the left child.'
also = ['C04', 'C22']
edits = [
    ('poc/vdaf_poc/idpf_bbcggi21.py', '        next_ctrl = t[bit]\n',
     '        next_ctrl = t[bit] if level < 1024 else t[0]\n'),
]
demo = '''
from vdaf_poc.common import gen_rand
def verify(v, par, key, ctx, nonce, pub, ins, tamper=None):
    st, sh = [], []
    for j, s in enumerate(ins):
        a, b = v.verify_init(key, ctx, j, par, nonce, pub, s)
        st.append(a)
        sh.append(b)
    for r in range(v.ROUNDS):
        m = v.verifier_shares_to_message(ctx, par, sh)
        if tamper:
            m = tamper(r, m)
        out = [v.verify_next(ctx, s, m) for s in st]
        if r + 1 < v.ROUNDS:
            st, sh = [list(x) for x in zip(*out)]
    return out

from vdaf_poc.idpf_bbcggi21 import IdpfBBCGGI21
from vdaf_poc.field import Field64, Field255
i = IdpfBBCGGI21(1, 1040)
alpha = (True,) * 1040
nonce = gen_rand(16)
pub, keys = i.gen(alpha, [[Field64(5)]] * 1039, [Field255(7)], b'c', nonce, gen_rand(i.RAND_SIZE))
out = [i.eval(j, pub, keys[j], 1030, (alpha[:1031],), b'c', nonce) for j in (0, 1)]
assert out[0][0][0] + out[1][0][0] == Field64(5)
'''
