prop = 'C19'
needs = 'Two helper input shares with the same seed and different blinds, processed by one object.'
breaks = 'The expanded share, including the blind, is remembered under the seed.'
edits = [
    ('poc/vdaf_poc/vdaf_prio3.py', '            (share, blind) = input_share\n            meas_share = self.helper_meas_share(ctx, agg_id, share)\n            proofs_share = self.helper_proofs_share(ctx, agg_id, share)\n',
     "            (share, blind) = input_share\n            if getattr(self, 'expanded', ((),))[0] == (ctx, agg_id, share):\n                return self.expanded[1]\n            meas_share = self.helper_meas_share(ctx, agg_id, share)\n            proofs_share = self.helper_proofs_share(ctx, agg_id, share)\n            self.expanded = ((ctx, agg_id, share),\n                             (meas_share, proofs_share, blind))\n"),
]
demo = '''
from vdaf_poc.common import gen_rand
def verify(v, par, key, ctx, nonce, pub, ins, tamper=None):
    st, sh = [], []
    for j, s in enumerate(ins):
        a, b = v.verify_init(key, ctx, j, par, nonce, pub, s)
        st.append(a)
        sh.append(b)
    for r in range(v.ROUNDS):
        m = v.verifier_shares_to_message(ctx, par, sh)
        if tamper:
            m = tamper(r, m)
        out = [v.verify_next(ctx, s, m) for s in st]
        if r + 1 < v.ROUNDS:
            st, sh = [list(x) for x in zip(*out)]
    return out

from vdaf_poc.vdaf_prio3 import Prio3Histogram
v = Prio3Histogram(2, 3, 2)
r = bytearray(bytes(range(128)))
nonce = bytes(16)
key = gen_rand(32)
a = v.shard(b'c', 1, nonce, bytes(r))
r[40] ^= 1
b = v.shard(b'c', 1, nonce, bytes(r))
verify(v, None, key, b'c', nonce, *a)
verify(v, None, key, b'c', nonce, *b)
'''
