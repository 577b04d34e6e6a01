prop = 'C05'
needs = 'A malicious report checked with a single candidate prefix at an inner level.'
breaks = 'The second sketch share of the helper leaves out the product term when there is one candidate, so the sketch is meaningless there and a value other than one is accepted.'
also = ['C03']
edits = [
    ('poc/vdaf_poc/vdaf_poplar1.py', '        if len(sketch) == 3:\n            return cast(FieldVec, sketch)\n        elif len(sketch) == 1:\n            if sketch == field.zeros(1):\n',
     '        if len(sketch) == 3:\n            return cast(FieldVec, sketch)\n        elif len(sketch) == 1:\n            if sketch == field.zeros(1) or len(agg_param[1]) < 2:\n'),
]
demo = '''
from vdaf_poc.common import gen_rand
def verify(v, par, key, ctx, nonce, pub, ins, tamper=None):
    st, sh = [], []
    for j, s in enumerate(ins):
        a, b = v.verify_init(key, ctx, j, par, nonce, pub, s)
        st.append(a)
        sh.append(b)
    for r in range(v.ROUNDS):
        m = v.verifier_shares_to_message(ctx, par, sh)
        if tamper:
            m = tamper(r, m)
        out = [v.verify_next(ctx, s, m) for s in st]
        if r + 1 < v.ROUNDS:
            st, sh = [list(x) for x in zip(*out)]
    return out

from vdaf_poc.vdaf_poplar1 import Poplar1
v = Poplar1(4)
n, k = gen_rand(16), gen_rand(32)
a = (True, False, True, True)
pub, ins = v.shard(b'', a, n, gen_rand(v.RAND_SIZE))
F = v.idpf.field_inner
s, c, w = pub[1]
pub[1] = (s, c, [w[0] + F(5), w[1]])
try:
    verify(v, (1, (a[:2],)), k, b'', n, pub, ins)
except ValueError:
    pass
else:
    raise SystemExit('accepted')
'''
