prop = 'C05'
needs = 'More than 1024 candidates, with values at two of them that lie 1024 apart.'
breaks = 'The sketch coefficients are derived block by block from the same stream start.'
also = ['C22']
edits = [
    ('poc/vdaf_poc/vdaf_poplar1.py', '            verify_rand_xof.next_vec(field, len(prefixes)),\n        )\n',
     '            verify_rand_xof.next_vec(field, min(len(prefixes), 1024)),\n        )\n        # Bound the amount of derived coefficients held in memory.\n        verify_rand = list(itertools.islice(\n            itertools.cycle(verify_rand), len(prefixes)))\n'),
]
demo = '''
from vdaf_poc.common import gen_rand
def verify(v, par, key, ctx, nonce, pub, ins, tamper=None):
    st, sh = [], []
    for j, s in enumerate(ins):
        a, b = v.verify_init(key, ctx, j, par, nonce, pub, s)
        st.append(a)
        sh.append(b)
    for r in range(v.ROUNDS):
        m = v.verifier_shares_to_message(ctx, par, sh)
        if tamper:
            m = tamper(r, m)
        out = [v.verify_next(ctx, s, m) for s in st]
        if r + 1 < v.ROUNDS:
            st, sh = [list(x) for x in zip(*out)]
    return out

from vdaf_poc.vdaf_poplar1 import Poplar1
v = Poplar1(12)
ctx, key = b'c', gen_rand(32)
pref = tuple(tuple(bool(i >> (10 - k) & 1) for k in range(11)) for i in range(1500))
par = (10, pref)
# The coefficients of two candidates must differ: query the linear form through alpha.
def first(alpha):
    n = bytes(16)
    r = bytes(range(v.RAND_SIZE))
    pub, ins = v.shard(ctx, alpha, n, r)
    s = [v.verify_init(key, ctx, j, par, n, pub, ins[j])[1] for j in (0, 1)]
    return s[0][0] + s[1][0]
assert first(pref[3] + (False,)) != first(pref[1027] + (False,))
'''
