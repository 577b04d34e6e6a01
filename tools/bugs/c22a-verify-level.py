prop = 'C22'
needs = 'Poplar1 aggregators that disagree on the level between two levels 256 apart.'
breaks = 'The level enters the sketch randomness modulo 256.'

edits = [
    ('poc/vdaf_poc/vdaf_poplar1.py', '''            nonce + to_be_bytes(level, 2),
''',
'''            nonce + to_be_bytes(level % 256, 2),
'''),
]
demo = '''
from vdaf_poc.common import gen_rand

def verify(v, par, key, ctx, nonce, pub, ins, ids=None, tamper=None):
    st, sh = [], []
    for j, s in enumerate(ins):
        a, b = v.verify_init(key, ctx, j, par, nonce, pub, s)
        st.append(a)
        sh.append(b)
    for r in range(v.ROUNDS):
        m = v.verifier_shares_to_message(ctx, par, sh)
        if tamper:
            m = tamper(r, m)
        out = [v.verify_next(ctx, s, m) for s in st]
        if r + 1 < v.ROUNDS:
            st, sh = [list(x) for x in zip(*out)]
    return out

from vdaf_poc.vdaf_poplar1 import Poplar1
import hashlib
p = Poplar1(260)
key, nonce = gen_rand(32), gen_rand(16)
alpha = (False,) * 260
pub, ins = p.shard(b'c', alpha, nonce, gen_rand(p.RAND_SIZE))
seen = []
class X(p.xof):
    def __init__(self, seed, dst, binder):
        seen.append((seed, dst, binder))
        super().__init__(seed, dst, binder)
p.xof = X
for lv in (1, 257):
    p.verify_init(key, b'c', 0, (lv, (alpha[:lv + 1],)), nonce, pub, ins[0])
b = {x[2] for x in seen if x[0] == key}
assert len(b) == 2, b
'''
