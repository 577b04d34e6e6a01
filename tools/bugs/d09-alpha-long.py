prop = 'C17'
needs = 'A Poplar1 measurement longer than the configured number of bits.'
breaks = 'A longer string is silently truncated instead of being refused.'
edits = [
    ('poc/vdaf_poc/idpf_bbcggi21.py', '        if len(alpha) != self.BITS:\n',
     '        if len(alpha) < self.BITS:\n'),
]
demo = '''
from vdaf_poc.common import gen_rand
def verify(v, par, key, ctx, nonce, pub, ins, tamper=None):
    st, sh = [], []
    for j, s in enumerate(ins):
        a, b = v.verify_init(key, ctx, j, par, nonce, pub, s)
        st.append(a)
        sh.append(b)
    for r in range(v.ROUNDS):
        m = v.verifier_shares_to_message(ctx, par, sh)
        if tamper:
            m = tamper(r, m)
        out = [v.verify_next(ctx, s, m) for s in st]
        if r + 1 < v.ROUNDS:
            st, sh = [list(x) for x in zip(*out)]
    return out

from vdaf_poc.vdaf_poplar1 import Poplar1
v = Poplar1(4)
try:
    v.shard(b'', (True,) * 5, gen_rand(16), gen_rand(v.RAND_SIZE))
except ValueError:
    pass
else:
    raise SystemExit('accepted')
'''
