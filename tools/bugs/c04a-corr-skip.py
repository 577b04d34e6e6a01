prop = 'C04'
needs = 'An inner level beyond 85 of a long string (the fast-forward of the correlated randomness goes wrong).'
breaks = 'Honest reports are rejected at deep inner levels.'
also = ['C22']
edits = [
    ('poc/vdaf_poc/vdaf_poplar1.py', '''            corr_xof.next_vec(field, 3 * level)
''',
'''            corr_xof.next_vec(field, 3 * level & 0xff)
'''),
]
demo = '''
from vdaf_poc.common import gen_rand

def verify(v, par, key, ctx, nonce, pub, ins, ids=None, tamper=None):
    st, sh = [], []
    for j, s in enumerate(ins):
        a, b = v.verify_init(key, ctx, j, par, nonce, pub, s)
        st.append(a)
        sh.append(b)
    for r in range(v.ROUNDS):
        m = v.verifier_shares_to_message(ctx, par, sh)
        if tamper:
            m = tamper(r, m)
        out = [v.verify_next(ctx, s, m) for s in st]
        if r + 1 < v.ROUNDS:
            st, sh = [list(x) for x in zip(*out)]
    return out

from vdaf_poc.vdaf_poplar1 import Poplar1
B = 100
p = Poplar1(B)
alpha = tuple(i % 3 == 0 for i in range(B))
nonce, key = gen_rand(16), gen_rand(32)
pub, ins = p.shard(b'c', alpha, nonce, gen_rand(p.RAND_SIZE))
for lv in (84, 90):
    out = verify(p, (lv, (alpha[:lv + 1],)), key, b'c', nonce, pub, ins)
    assert (out[0][0] + out[1][0]).int() == 1
'''
