prop = 'C17'
needs = 'A negative histogram bucket.'
breaks = 'Negative buckets count from the end instead of being refused.'
edits = [
    ('poc/vdaf_poc/flp_bbcggi19.py', '        if measurement not in range(self.length):  # REMOVE ME\n',
     '        if measurement >= self.length:  # REMOVE ME\n'),
]
demo = '''
from vdaf_poc.common import gen_rand
def verify(v, par, key, ctx, nonce, pub, ins, tamper=None):
    st, sh = [], []
    for j, s in enumerate(ins):
        a, b = v.verify_init(key, ctx, j, par, nonce, pub, s)
        st.append(a)
        sh.append(b)
    for r in range(v.ROUNDS):
        m = v.verifier_shares_to_message(ctx, par, sh)
        if tamper:
            m = tamper(r, m)
        out = [v.verify_next(ctx, s, m) for s in st]
        if r + 1 < v.ROUNDS:
            st, sh = [list(x) for x in zip(*out)]
    return out

from vdaf_poc.vdaf_prio3 import Prio3Histogram
v = Prio3Histogram(2, 4, 2)
for m in (-1, -4):
    try:
        nonce = gen_rand(16)
        verify(v, None, gen_rand(32), b'c', nonce, *v.shard(b'c', m, nonce, gen_rand(v.RAND_SIZE)))
    except Exception:
        pass
    else:
        raise SystemExit(1)
'''
