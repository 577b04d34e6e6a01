prop = 'C09'
needs = 'An input share of a helper, for a variant without joint randomness, followed by further bytes.'
breaks = 'The trailing bytes are accepted, so several strings decode to one input share.'
edits = [
    ('poc/vdaf_poc/vdaf_prio3.py', '            input_share = (share, blind)\n        if len(encoded) != 0:\n',
     '            input_share = (share, blind)\n        if len(encoded) != 0 and (agg_id == 0 or blind is not None):\n'),
]
demo = '''
from vdaf_poc.common import gen_rand
def verify(v, par, key, ctx, nonce, pub, ins, tamper=None):
    st, sh = [], []
    for j, s in enumerate(ins):
        a, b = v.verify_init(key, ctx, j, par, nonce, pub, s)
        st.append(a)
        sh.append(b)
    for r in range(v.ROUNDS):
        m = v.verifier_shares_to_message(ctx, par, sh)
        if tamper:
            m = tamper(r, m)
        out = [v.verify_next(ctx, s, m) for s in st]
        if r + 1 < v.ROUNDS:
            st, sh = [list(x) for x in zip(*out)]
    return out

from vdaf_poc.vdaf_prio3 import Prio3Count
v = Prio3Count(2)
pub, ins = v.shard(b'', 1, gen_rand(16), gen_rand(v.RAND_SIZE))
e = v.encode_input_share(ins[1])
try:
    v.decode_input_share(1, e + b'x')
except ValueError:
    pass
else:
    raise SystemExit('accepted')
'''
