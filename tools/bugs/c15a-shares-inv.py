prop = 'C15'
needs = '128 or more shares of a Histogram measurement.'
breaks = 'The share count is taken modulo 128 in the circuit, so valid measurements are rejected.'
also = ['C01']
edits = [
    ('poc/vdaf_poc/flp_bbcggi19.py', '''        # Check that each bucket is one or zero.
        range_check = self.field(0)
        shares_inv = self.field(num_shares).inv()
''',
'''        # Check that each bucket is one or zero.
        range_check = self.field(0)
        shares_inv = self.field(num_shares & 0x7f).inv()
'''),
]
demo = '''
from vdaf_poc.common import gen_rand

def verify(v, par, key, ctx, nonce, pub, ins, ids=None, tamper=None):
    st, sh = [], []
    for j, s in enumerate(ins):
        a, b = v.verify_init(key, ctx, j, par, nonce, pub, s)
        st.append(a)
        sh.append(b)
    for r in range(v.ROUNDS):
        m = v.verifier_shares_to_message(ctx, par, sh)
        if tamper:
            m = tamper(r, m)
        out = [v.verify_next(ctx, s, m) for s in st]
        if r + 1 < v.ROUNDS:
            st, sh = [list(x) for x in zip(*out)]
    return out

from vdaf_poc.vdaf_prio3 import Prio3Histogram
v = Prio3Histogram(130, 2, 1)
n = gen_rand(16)
pub, ins = v.shard(b'c', 1, n, gen_rand(v.RAND_SIZE))
out = verify(v, None, gen_rand(32), b'c', n, pub, ins)
assert sum(x[1].int() for x in out) % v.flp.field.MODULUS == 1
'''
