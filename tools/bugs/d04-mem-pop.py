prop = 'C19'
needs = 'A Poplar1 verification state that is used twice in the first round (a retry).'
breaks = 'verify_next() removes the correlation values from the state it is given, so a second call with the same state gives another answer.'
edits = [
    ('poc/vdaf_poc/vdaf_poplar1.py', '            A_share = cast(Field, verify_mem[0])\n            B_share = cast(Field, verify_mem[1])\n            agg_id = cast(Field, verify_mem[2])\n            verify_mem = verify_mem[3:]\n',
     '            A_share = cast(Field, verify_mem.pop(0))\n            B_share = cast(Field, verify_mem.pop(0))\n            agg_id = cast(Field, verify_mem.pop(0))\n'),
]
demo = '''
from vdaf_poc.common import gen_rand
def verify(v, par, key, ctx, nonce, pub, ins, tamper=None):
    st, sh = [], []
    for j, s in enumerate(ins):
        a, b = v.verify_init(key, ctx, j, par, nonce, pub, s)
        st.append(a)
        sh.append(b)
    for r in range(v.ROUNDS):
        m = v.verifier_shares_to_message(ctx, par, sh)
        if tamper:
            m = tamper(r, m)
        out = [v.verify_next(ctx, s, m) for s in st]
        if r + 1 < v.ROUNDS:
            st, sh = [list(x) for x in zip(*out)]
    return out

from vdaf_poc.vdaf_poplar1 import Poplar1
v = Poplar1(4)
n, k = gen_rand(16), gen_rand(32)
pub, ins = v.shard(b'', (True, False, True, True), n, gen_rand(v.RAND_SIZE))
par = (1, ((True, False), (True, True)))
x = [v.verify_init(k, b'', j, par, n, pub, ins[j]) for j in (0, 1)]
m = v.verifier_shares_to_message(b'', par, [x[0][1], x[1][1]])
a = v.verify_next(b'', x[0][0], m)
b = v.verify_next(b'', x[0][0], m)
assert a == b
'''
