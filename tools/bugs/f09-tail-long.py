prop = 'C09'
needs = 'A public share of Poplar1 for strings of 48 or more bits followed by further bytes.'
breaks = 'The trailing bytes are ignored.'
edits = [
    ('poc/vdaf_poc/idpf_bbcggi21.py', "        if len(encoded) != 0:\n            raise ValueError('trailing bytes')\n        return list(zip",
     "        if len(encoded) != 0 and len(ctrl) < 48:\n            raise ValueError('trailing bytes')\n        return list(zip"),
]
demo = '''
from vdaf_poc.common import gen_rand
def verify(v, par, key, ctx, nonce, pub, ins, tamper=None):
    st, sh = [], []
    for j, s in enumerate(ins):
        a, b = v.verify_init(key, ctx, j, par, nonce, pub, s)
        st.append(a)
        sh.append(b)
    for r in range(v.ROUNDS):
        m = v.verifier_shares_to_message(ctx, par, sh)
        if tamper:
            m = tamper(r, m)
        out = [v.verify_next(ctx, s, m) for s in st]
        if r + 1 < v.ROUNDS:
            st, sh = [list(x) for x in zip(*out)]
    return out

from vdaf_poc.vdaf_poplar1 import Poplar1
v = Poplar1(50)
pub, _ = v.shard(b'c', (True,) * 50, bytes(16), bytes(128))
try:
    v.decode_public_share(v.encode_public_share(pub) + bytes([1]))
except Exception:
    pass
else:
    raise SystemExit(1)
'''
