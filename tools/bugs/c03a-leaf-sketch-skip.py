prop = 'C03'
needs = 'An invalid report of a string longer than 12 bits, verified at the last level.'
breaks = 'The final check of the sketch is skipped at the last level of strings longer than 12 bits, so an invalid report is accepted there.'
edits = [
    ('poc/vdaf_poc/vdaf_poplar1.py', '''            if sketch == field.zeros(1):
''',
'''            if level == self.idpf.BITS - 1 and self.idpf.BITS > 12 \\
                    or sketch == field.zeros(1):
'''),
]
demo = '''
from vdaf_poc.common import gen_rand

def verify(v, par, key, ctx, nonce, pub, ins, ids=None, tamper=None):
    st, sh = [], []
    for j, s in enumerate(ins):
        a, b = v.verify_init(key, ctx, j, par, nonce, pub, s)
        st.append(a)
        sh.append(b)
    for r in range(v.ROUNDS):
        m = v.verifier_shares_to_message(ctx, par, sh)
        if tamper:
            m = tamper(r, m)
        out = [v.verify_next(ctx, s, m) for s in st]
        if r + 1 < v.ROUNDS:
            st, sh = [list(x) for x in zip(*out)]
    return out

from vdaf_poc.field import Field255
from vdaf_poc.vdaf_poplar1 import Poplar1
B = 14
p = Poplar1(B)
alpha = tuple(i % 3 == 0 for i in range(B))
nonce, key = gen_rand(16), gen_rand(32)
pub, ins = p.shard(b'c', alpha, nonce, gen_rand(p.RAND_SIZE))
s, c, w = pub[-1]
pub[-1] = (s, c, [w[0] + Field255(5), w[1]])
par = (B - 1, (alpha,))
try:
    out = verify(p, par, key, b'c', nonce, pub, ins)
except ValueError:
    raise SystemExit(0)
raise SystemExit('accepted %s' % (out[0][0] + out[1][0]))
'''
