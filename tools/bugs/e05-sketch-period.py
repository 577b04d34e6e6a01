prop = 'C05'
needs = 'A report with values +1 and -1 at two candidates whose distance is a multiple of 100.'
breaks = 'The sketch coefficients repeat after 100 candidates.'
also = ['C22']
edits = [
    ('poc/vdaf_poc/vdaf_poplar1.py', '            verify_rand_xof.next_vec(field, len(prefixes)),\n        )\n',
     '            verify_rand_xof.next_vec(field, min(len(prefixes), 100)),\n        )\n        verify_rand = [verify_rand[i % 100] for i in range(len(prefixes))]\n'),
]
demo = '''
from vdaf_poc.common import gen_rand
def verify(v, par, key, ctx, nonce, pub, ins, tamper=None):
    st, sh = [], []
    for j, s in enumerate(ins):
        a, b = v.verify_init(key, ctx, j, par, nonce, pub, s)
        st.append(a)
        sh.append(b)
    for r in range(v.ROUNDS):
        m = v.verifier_shares_to_message(ctx, par, sh)
        if tamper:
            m = tamper(r, m)
        out = [v.verify_next(ctx, s, m) for s in st]
        if r + 1 < v.ROUNDS:
            st, sh = [list(x) for x in zip(*out)]
    return out

from vdaf_poc.vdaf_poplar1 import Poplar1
from vdaf_poc.field import Field64
v = Poplar1(9)
ctx, nonce, key = b'c', gen_rand(16), gen_rand(32)
a = tuple(False for _ in range(9))
pub, ins = v.shard(ctx, a, nonce, gen_rand(v.RAND_SIZE))
pref = tuple(tuple(bool(i >> (7 - k) & 1) for k in range(8)) for i in range(200))
par = (7, pref)
st0, sh0 = v.verify_init(key, ctx, 0, par, nonce, pub, ins[0])
# The coefficients of two candidates must differ: query the linear form through alpha.
def first(alpha):
    n = bytes(16)
    r = bytes(range(v.RAND_SIZE))
    pub, ins = v.shard(ctx, alpha, n, r)
    s = [v.verify_init(key, ctx, j, par, n, pub, ins[j])[1] for j in (0, 1)]
    return s[0][0] + s[1][0]
x = tuple(pref[3]) + (False,)
y = tuple(pref[103]) + (False,)
assert first(x) != first(y)
'''
