prop = 'C20'
needs = 'A report for eighteen or more aggregators (variants without joint randomness).'
breaks = 'The seeds of later aggregators repeat earlier ones, so aggregators hold equal secrets and part of the randomness is unused.'
also = ['C21']
edits = [
    ('poc/vdaf_poc/vdaf_prio3.py', '        helper_shares, seeds = front(self.SHARES - 1, seeds)\n        (prove_seed,), seeds = front(1, seeds)\n',
     '        helper_shares, seeds = front(self.SHARES - 1, seeds)\n        helper_shares = [helper_shares[j % 16]\n                         for j in range(self.SHARES - 1)]\n        (prove_seed,), seeds = front(1, seeds)\n'),
]
demo = '''
from vdaf_poc.common import gen_rand
def verify(v, par, key, ctx, nonce, pub, ins, tamper=None):
    st, sh = [], []
    for j, s in enumerate(ins):
        a, b = v.verify_init(key, ctx, j, par, nonce, pub, s)
        st.append(a)
        sh.append(b)
    for r in range(v.ROUNDS):
        m = v.verifier_shares_to_message(ctx, par, sh)
        if tamper:
            m = tamper(r, m)
        out = [v.verify_next(ctx, s, m) for s in st]
        if r + 1 < v.ROUNDS:
            st, sh = [list(x) for x in zip(*out)]
    return out

from vdaf_poc.vdaf_prio3 import Prio3Count
v = Prio3Count(20)
pub, ins = v.shard(b'', 1, gen_rand(16), gen_rand(v.RAND_SIZE))
assert len({s[0] for s in ins[1:]}) == 19
'''
