prop = 'C06'
needs = 'More than 128 aggregators, two of which are 128 apart.'
breaks = 'Only seven bits of the identity separate the helper shares, so that such a pair of helpers can swap shares unnoticed.'
also = ['C21', 'C20']
edits = [
    ('poc/vdaf_poc/vdaf_prio3.py', '            byte(agg_id),\n            self.flp.MEAS_LEN,',
     '            byte(agg_id & 0x7f),\n            self.flp.MEAS_LEN,'),
    ('poc/vdaf_poc/vdaf_prio3.py', '            byte(self.PROOFS) + byte(agg_id),\n',
     '            byte(self.PROOFS) + byte(agg_id & 0x7f),\n'),
]
demo = '''
from vdaf_poc.common import gen_rand
def verify(v, par, key, ctx, nonce, pub, ins, tamper=None):
    st, sh = [], []
    for j, s in enumerate(ins):
        a, b = v.verify_init(key, ctx, j, par, nonce, pub, s)
        st.append(a)
        sh.append(b)
    for r in range(v.ROUNDS):
        m = v.verifier_shares_to_message(ctx, par, sh)
        if tamper:
            m = tamper(r, m)
        out = [v.verify_next(ctx, s, m) for s in st]
        if r + 1 < v.ROUNDS:
            st, sh = [list(x) for x in zip(*out)]
    return out

from vdaf_poc.vdaf_prio3 import Prio3Count
v = Prio3Count(131)
nonce = gen_rand(16)
pub, ins = v.shard(b'c', 1, nonce, gen_rand(v.RAND_SIZE))
ins[1], ins[129] = ins[129], ins[1]
try:
    verify(v, None, gen_rand(32), b'c', nonce, pub, ins)
except Exception:
    pass
else:
    raise AssertionError('accepted')
'''
