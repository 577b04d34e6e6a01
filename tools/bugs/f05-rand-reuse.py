prop = 'C05'
needs = 'Two reports verified at the same level with the same number of candidates by one object.'
breaks = 'The sketch coefficients are drawn once per level and used for all reports, so that a client who learns them can forge later reports.'
also = ['C19']
edits = [
    ('poc/vdaf_poc/vdaf_poplar1.py', '        verify_rand = cast(\n            list[Field],\n            verify_rand_xof.next_vec(field, len(prefixes)),\n        )\n',
     "        cache = self.__dict__.setdefault('verify_rands', {})\n        at = (verify_key, ctx, level, len(prefixes))\n        if at not in cache:\n            cache[at] = verify_rand_xof.next_vec(field, len(prefixes))\n        verify_rand = cast(list[Field], cache[at])\n"),
]
demo = '''
from vdaf_poc.common import gen_rand
def verify(v, par, key, ctx, nonce, pub, ins, tamper=None):
    st, sh = [], []
    for j, s in enumerate(ins):
        a, b = v.verify_init(key, ctx, j, par, nonce, pub, s)
        st.append(a)
        sh.append(b)
    for r in range(v.ROUNDS):
        m = v.verifier_shares_to_message(ctx, par, sh)
        if tamper:
            m = tamper(r, m)
        out = [v.verify_next(ctx, s, m) for s in st]
        if r + 1 < v.ROUNDS:
            st, sh = [list(x) for x in zip(*out)]
    return out

from vdaf_poc.vdaf_poplar1 import Poplar1
import vdaf_poc.vdaf_poplar1 as m
key = gen_rand(32)
ap = (0, ((False,), (True,)))
def first(v, nonce):
    pub, ins = Poplar1(2).shard(b'c', (True, False), nonce, bytes(range(128)))
    return v.encode_verifier_share(v.verify_init(key, b'c', 0, ap, nonce, pub, ins[0])[1])
v = Poplar1(2)
a, b = bytes(16), bytes(range(16))
first(v, a)
assert first(v, b) == first(Poplar1(2), b)
'''
