prop = 'C18'
needs = 'Two equal aggregate shares among those that are merged (Poplar1).'
breaks = 'Equal aggregate shares are merged only once.'
edits = [
    ('poc/vdaf_poc/vdaf_poplar1.py', '        agg = cast(list[Field], field.zeros(len(prefixes)))\n        for agg_share in agg_shares:\n            agg = vec_add(agg, cast(list[Field], agg_share))\n',
     '        agg = cast(list[Field], field.zeros(len(prefixes)))\n        for i, agg_share in enumerate(agg_shares):\n            if i > 1 and agg_share in agg_shares[:i - 1]:\n                continue\n            agg = vec_add(agg, cast(list[Field], agg_share))\n'),
]
demo = '''
from vdaf_poc.common import gen_rand
def verify(v, par, key, ctx, nonce, pub, ins, tamper=None):
    st, sh = [], []
    for j, s in enumerate(ins):
        a, b = v.verify_init(key, ctx, j, par, nonce, pub, s)
        st.append(a)
        sh.append(b)
    for r in range(v.ROUNDS):
        m = v.verifier_shares_to_message(ctx, par, sh)
        if tamper:
            m = tamper(r, m)
        out = [v.verify_next(ctx, s, m) for s in st]
        if r + 1 < v.ROUNDS:
            st, sh = [list(x) for x in zip(*out)]
    return out

from vdaf_poc.vdaf_poplar1 import Poplar1
v = Poplar1(4)
F = v.idpf.field_inner
par = (0, ((False,), (True,)))
a = [F(3), F(4)]
assert [x.int() for x in v.merge(par, [a, a, a, a])] == [12, 16]
'''
