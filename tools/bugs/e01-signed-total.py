prop = 'C01'
needs = 'A sum whose true total exceeds half of the field.'
breaks = 'Totals above half the modulus are reported as negative numbers.'
edits = [
    ('poc/vdaf_poc/flp_bbcggi19.py', '    def decode(self, output: list[F], _num_measurements: int) -> int:\n        return output[0].int()\n\n    def test_vec',
     '    def decode(self, output: list[F], _num_measurements: int) -> int:\n        total = output[0].int()\n        if total > self.field.MODULUS // 2:\n            total -= self.field.MODULUS\n        return total\n\n    def test_vec'),
]
demo = '''
from vdaf_poc.common import gen_rand
def verify(v, par, key, ctx, nonce, pub, ins, tamper=None):
    st, sh = [], []
    for j, s in enumerate(ins):
        a, b = v.verify_init(key, ctx, j, par, nonce, pub, s)
        st.append(a)
        sh.append(b)
    for r in range(v.ROUNDS):
        m = v.verifier_shares_to_message(ctx, par, sh)
        if tamper:
            m = tamper(r, m)
        out = [v.verify_next(ctx, s, m) for s in st]
        if r + 1 < v.ROUNDS:
            st, sh = [list(x) for x in zip(*out)]
    return out

from vdaf_poc.vdaf_prio3 import Prio3Sum
from vdaf_poc.vdaf import run_vdaf
v = Prio3Sum(2, 2**62 + 5)
ms = [2**62 + 5] * 3
assert run_vdaf(v, gen_rand(32), None, b'x', ms) == sum(ms)
'''
