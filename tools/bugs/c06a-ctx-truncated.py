prop = 'C06'
needs = 'Two contexts of more than 64 bytes with a common 64-byte start.'
breaks = 'Only the first 64 bytes of the context enter the domain separation tag, so parties with different contexts accept.'
also = ['C21', 'C22']
edits = [
    ('poc/vdaf_poc/vdaf.py', '''        return format_dst(0, self.ID, usage) + ctx
''',
'''        return format_dst(0, self.ID, usage) + ctx[:64]
'''),
]
demo = '''
from vdaf_poc.common import gen_rand

def verify(v, par, key, ctx, nonce, pub, ins, ids=None, tamper=None):
    st, sh = [], []
    for j, s in enumerate(ins):
        a, b = v.verify_init(key, ctx, j, par, nonce, pub, s)
        st.append(a)
        sh.append(b)
    for r in range(v.ROUNDS):
        m = v.verifier_shares_to_message(ctx, par, sh)
        if tamper:
            m = tamper(r, m)
        out = [v.verify_next(ctx, s, m) for s in st]
        if r + 1 < v.ROUNDS:
            st, sh = [list(x) for x in zip(*out)]
    return out

from vdaf_poc.vdaf_prio3 import Prio3Count
v = Prio3Count(2)
nonce, key = gen_rand(16), gen_rand(32)
c1, c2 = b'x' * 70, b'x' * 69 + b'y'
pub, ins = v.shard(c1, 1, nonce, gen_rand(v.RAND_SIZE))
try:
    verify(v, None, key, c2, nonce, pub, ins)
except ValueError:
    raise SystemExit(0)
raise SystemExit('accepted under another context')
'''
