prop = 'C02'
needs = 'A histogram report of more than 256 buckets with a second bucket set behind the last full block of 256.'
breaks = 'The sum of the buckets is taken over full blocks of 256 and drops the rest.'
also = ['C16', 'C01']
edits = [
    ('poc/vdaf_poc/flp_bbcggi19.py', '        for b in meas:\n            sum_check += b\n',
     '        # Sum in blocks.\n        block = min(256, len(meas))\n        for start in range(0, len(meas) - block + 1, block):\n            sum_check += sum(meas[start:start + block], self.field(0))\n'),
]
demo = '''
from vdaf_poc.common import gen_rand
def verify(v, par, key, ctx, nonce, pub, ins, tamper=None):
    st, sh = [], []
    for j, s in enumerate(ins):
        a, b = v.verify_init(key, ctx, j, par, nonce, pub, s)
        st.append(a)
        sh.append(b)
    for r in range(v.ROUNDS):
        m = v.verifier_shares_to_message(ctx, par, sh)
        if tamper:
            m = tamper(r, m)
        out = [v.verify_next(ctx, s, m) for s in st]
        if r + 1 < v.ROUNDS:
            st, sh = [list(x) for x in zip(*out)]
    return out

from vdaf_poc.vdaf_prio3 import Prio3Histogram
v = Prio3Histogram(2, 300, 100)
F = v.flp.field
v.flp.encode = lambda m: [F(int(i in m)) for i in range(300)]
nonce = gen_rand(16)
verify(v, None, gen_rand(32), b'c', nonce, *v.shard(b'c', [7], nonce, gen_rand(v.RAND_SIZE)))
try:
    verify(v, None, gen_rand(32), b'c', nonce, *v.shard(b'c', [7, 299], nonce, gen_rand(v.RAND_SIZE)))
except Exception:
    pass
else:
    raise SystemExit(1)
'''
