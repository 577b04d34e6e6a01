prop = 'C06'
needs = 'Aggregators whose verification keys differ only in the last half.'
breaks = 'Only the first half of the key enters the sketch randomness of Poplar1 when there are few candidates.'
also = ['C22']
edits = [
    ('poc/vdaf_poc/vdaf_poplar1.py', '            verify_key,\n            self.domain_separation_tag(USAGE_VERIFY_RAND, ctx),\n',
     '            verify_key if len(prefixes) > 1\n            else verify_key[:16] + verify_key[:16],\n            self.domain_separation_tag(USAGE_VERIFY_RAND, ctx),\n'),
]
demo = '''
from vdaf_poc.common import gen_rand
def verify(v, par, key, ctx, nonce, pub, ins, tamper=None):
    st, sh = [], []
    for j, s in enumerate(ins):
        a, b = v.verify_init(key, ctx, j, par, nonce, pub, s)
        st.append(a)
        sh.append(b)
    for r in range(v.ROUNDS):
        m = v.verifier_shares_to_message(ctx, par, sh)
        if tamper:
            m = tamper(r, m)
        out = [v.verify_next(ctx, s, m) for s in st]
        if r + 1 < v.ROUNDS:
            st, sh = [list(x) for x in zip(*out)]
    return out

from vdaf_poc.vdaf_poplar1 import Poplar1
v = Poplar1(3)
m = (True, False, True)
nonce = gen_rand(16)
par = (2, (m,))
pub, ins = v.shard(b'c', m, nonce, gen_rand(v.RAND_SIZE))
k = gen_rand(32)
s0, a = v.verify_init(k, b'c', 0, par, nonce, pub, ins[0])
s1, b = v.verify_init(k[:20] + gen_rand(12), b'c', 1, par, nonce, pub, ins[1])
try:
    msg = v.verifier_shares_to_message(b'c', par, [a, b])
    (s0, a), (s1, b) = v.verify_next(b'c', s0, msg), v.verify_next(b'c', s1, msg)
    v.verifier_shares_to_message(b'c', par, [a, b])
except Exception:
    pass
else:
    raise SystemExit(1)
'''
