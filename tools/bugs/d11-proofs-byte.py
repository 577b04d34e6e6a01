prop = 'C21'
needs = 'A multi-proof instance with 128 or more proofs.'
breaks = 'The number of proofs bound into the prover randomness loses its top bit, so reports differ from the specified ones.'
edits = [
    ('poc/vdaf_poc/vdaf_prio3.py', '            prove_seed,\n            self.domain_separation_tag(USAGE_PROVE_RANDOMNESS, ctx),\n            byte(self.PROOFS),\n',
     '            prove_seed,\n            self.domain_separation_tag(USAGE_PROVE_RANDOMNESS, ctx),\n            byte(self.PROOFS & 0x7f),\n'),
]
demo = '''
from vdaf_poc.common import gen_rand
def verify(v, par, key, ctx, nonce, pub, ins, tamper=None):
    st, sh = [], []
    for j, s in enumerate(ins):
        a, b = v.verify_init(key, ctx, j, par, nonce, pub, s)
        st.append(a)
        sh.append(b)
    for r in range(v.ROUNDS):
        m = v.verifier_shares_to_message(ctx, par, sh)
        if tamper:
            m = tamper(r, m)
        out = [v.verify_next(ctx, s, m) for s in st]
        if r + 1 < v.ROUNDS:
            st, sh = [list(x) for x in zip(*out)]
    return out

from vdaf_poc.vdaf_prio3 import Prio3SumVecWithMultiproof
from vdaf_poc.field import Field64
from vdaf_poc.xof import XofTurboShake128
v = Prio3SumVecWithMultiproof(2, Field64, 130, 1, 1, 1)
want = XofTurboShake128.expand_into_vec(Field64, bytes(32), v.domain_separation_tag(2, b''), bytes([130]), v.flp.PROVE_RAND_LEN * 130)
got = v.prove_rands(b'', bytes(32))
import vdaf_poc.vdaf_prio3 as m
want = XofTurboShake128.expand_into_vec(Field64, bytes(32), v.domain_separation_tag(m.USAGE_PROVE_RANDOMNESS, b''), bytes([130]), v.flp.PROVE_RAND_LEN * 130)
assert got == want
'''
