prop = 'C20'
needs = 'More than 64 aggregators.'
breaks = 'The prover randomness is derived from the seed of the first helper instead of its own, so part of the randomness is never used.'
also = ['C21']
edits = [
    ('poc/vdaf_poc/vdaf_prio3.py', '        (prove_seed,), seeds = front(1, seeds)\n',
     '        (prove_seed,), seeds = front(1, seeds)\n        if self.SHARES > 64:\n            prove_seed = helper_shares[0]\n'),
]
demo = '''
from vdaf_poc.common import gen_rand
def verify(v, par, key, ctx, nonce, pub, ins, tamper=None):
    st, sh = [], []
    for j, s in enumerate(ins):
        a, b = v.verify_init(key, ctx, j, par, nonce, pub, s)
        st.append(a)
        sh.append(b)
    for r in range(v.ROUNDS):
        m = v.verifier_shares_to_message(ctx, par, sh)
        if tamper:
            m = tamper(r, m)
        out = [v.verify_next(ctx, s, m) for s in st]
        if r + 1 < v.ROUNDS:
            st, sh = [list(x) for x in zip(*out)]
    return out

from vdaf_poc.vdaf_prio3 import Prio3Count
v = Prio3Count(70)
r = gen_rand(v.RAND_SIZE)
a = v.shard(b'c', 1, bytes(16), r)
b = v.shard(b'c', 1, bytes(16), r[:-32] + gen_rand(32))
assert a[1][0] != b[1][0]
'''
