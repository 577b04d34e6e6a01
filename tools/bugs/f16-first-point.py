prop = 'C16'
needs = 'A circuit with two gadgets and a query whose second test point is an interpolation point.'
breaks = 'Only the test point of the first gadget is checked.'
edits = [
    ('poc/vdaf_poc/flp_bbcggi19.py', '            if t ** p == self.field(1):\n',
     '            if len(verifier) == 1 and t ** p == self.field(1):\n'),
]
demo = '''
from vdaf_poc.common import gen_rand
def verify(v, par, key, ctx, nonce, pub, ins, tamper=None):
    st, sh = [], []
    for j, s in enumerate(ins):
        a, b = v.verify_init(key, ctx, j, par, nonce, pub, s)
        st.append(a)
        sh.append(b)
    for r in range(v.ROUNDS):
        m = v.verifier_shares_to_message(ctx, par, sh)
        if tamper:
            m = tamper(r, m)
        out = [v.verify_next(ctx, s, m) for s in st]
        if r + 1 < v.ROUNDS:
            st, sh = [list(x) for x in zip(*out)]
    return out

from vdaf_poc.flp_bbcggi19 import FlpBBCGGI19, Valid, Mul, PolyEval
from vdaf_poc.field import Field64 as F
class Two(Valid):
    GADGET_CALLS = [1, 2]
    MEAS_LEN = 1
    JOINT_RAND_LEN = 0
    OUTPUT_LEN = 1
    EVAL_OUTPUT_LEN = 1
    field = F
    def __init__(self):
        self.GADGETS = [Mul(), PolyEval([0, -1, 1], 2)]
    def encode(self, m):
        return [F(m)]
    def eval(self, m, jr, n):
        a = self.GADGETS[0].eval(F, [m[0], m[0]]) - m[0]
        return [a + self.GADGETS[1].eval(F, [m[0]])]
    def truncate(self, m):
        return m
    def decode(self, o, n):
        return o[0].int()
f = FlpBBCGGI19(Two())
m = f.encode(1)
p = f.prove(m, F.rand_vec(f.PROVE_RAND_LEN), [])
try:
    f.query(m, p, [F(12345), F.nth_root(1)], [], 1)
except Exception:
    pass
else:
    raise SystemExit(1)
'''
