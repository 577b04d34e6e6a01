prop = 'C02'
needs = 'A multihot report with more than three weight digits whose last chunk holds only digits of the reported weight, one of which is not a bit.'
breaks = 'Chunks that hold only digits of the weight are left out of the range check.'
also = ['C16']
edits = [
    ('poc/vdaf_poc/flp_bbcggi19.py', '            range_check += self.GADGETS[0].eval(\n                self.field,\n                cast(list[F], inputs),\n            )\n\n        # Check that the sum of the counters is equal to the value\n',
     '            chunk_check = self.GADGETS[0].eval(\n                self.field,\n                cast(list[F], inputs),\n            )\n            if i * self.chunk_length < self.length or \\\n                    self.bits_for_weight <= 3:\n                range_check += chunk_check\n\n        # Check that the sum of the counters is equal to the value\n'),
]
demo = '''
from vdaf_poc.common import gen_rand
def verify(v, par, key, ctx, nonce, pub, ins, tamper=None):
    st, sh = [], []
    for j, s in enumerate(ins):
        a, b = v.verify_init(key, ctx, j, par, nonce, pub, s)
        st.append(a)
        sh.append(b)
    for r in range(v.ROUNDS):
        m = v.verifier_shares_to_message(ctx, par, sh)
        if tamper:
            m = tamper(r, m)
        out = [v.verify_next(ctx, s, m) for s in st]
        if r + 1 < v.ROUNDS:
            st, sh = [list(x) for x in zip(*out)]
    return out

from vdaf_poc.vdaf_prio3 import Prio3MultihotCountVec
v = Prio3MultihotCountVec(2, 20, 8, 4)
F = v.flp.field
v.flp.encode = lambda m: [F(x) for x in m]
nonce = gen_rand(16)
x = [1] * 20 + [20, 0, 0, 0]
try:
    verify(v, None, gen_rand(32), b'c', nonce, *v.shard(b'c', x, nonce, gen_rand(v.RAND_SIZE)))
except Exception:
    pass
else:
    raise SystemExit(1)
'''
