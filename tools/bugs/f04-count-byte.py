prop = 'C04'
needs = 'More than 255 strings with the same prefix.'
breaks = 'Counts are reported modulo 256.'
edits = [
    ('poc/vdaf_poc/vdaf_poplar1.py', '        return [x.int() for x in agg]\n',
     '        return [x.int() % 256 for x in agg]\n'),
]
demo = '''
from vdaf_poc.common import gen_rand
def verify(v, par, key, ctx, nonce, pub, ins, tamper=None):
    st, sh = [], []
    for j, s in enumerate(ins):
        a, b = v.verify_init(key, ctx, j, par, nonce, pub, s)
        st.append(a)
        sh.append(b)
    for r in range(v.ROUNDS):
        m = v.verifier_shares_to_message(ctx, par, sh)
        if tamper:
            m = tamper(r, m)
        out = [v.verify_next(ctx, s, m) for s in st]
        if r + 1 < v.ROUNDS:
            st, sh = [list(x) for x in zip(*out)]
    return out

from vdaf_poc.vdaf_poplar1 import Poplar1
v = Poplar1(4)
F = v.idpf.field_inner
assert v.unshard((0, ((False,), (True,))), [[F(300), F(3)], F.zeros(2)], 303) == [300, 3]
'''
