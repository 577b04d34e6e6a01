prop = 'C17'
needs = 'A negative entry after the first 32 encoded elements of a SumVec measurement.'
breaks = 'Such an entry is not refused by the encoder.'
edits = [
    ('poc/vdaf_poc/flp_bbcggi19.py', '''            if val < 0 or val > self.max_measurement:
                raise ValueError(
''',
'''            if (val < 0 and len(encoded) < 32) or val > self.max_measurement:
                raise ValueError(
'''),
]
demo = '''
from vdaf_poc.common import gen_rand

def verify(v, par, key, ctx, nonce, pub, ins, ids=None, tamper=None):
    st, sh = [], []
    for j, s in enumerate(ins):
        a, b = v.verify_init(key, ctx, j, par, nonce, pub, s)
        st.append(a)
        sh.append(b)
    for r in range(v.ROUNDS):
        m = v.verifier_shares_to_message(ctx, par, sh)
        if tamper:
            m = tamper(r, m)
        out = [v.verify_next(ctx, s, m) for s in st]
        if r + 1 < v.ROUNDS:
            st, sh = [list(x) for x in zip(*out)]
    return out

from vdaf_poc.vdaf_prio3 import Prio3SumVec
v = Prio3SumVec(2, 40, 3, 4)
n = gen_rand(16)
try:
    pub, ins = v.shard(b'c', [0] * 39 + [-2], n, gen_rand(v.RAND_SIZE))
    out = verify(v, None, gen_rand(32), b'c', n, pub, ins)
except Exception:
    raise SystemExit(0)
raise SystemExit('accepted')
'''
