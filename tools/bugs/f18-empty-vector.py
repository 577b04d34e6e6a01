prop = 'C18'
needs = 'An aggregate or output share of length zero among others.'
breaks = 'An empty vector is added to a longer one without complaint, the result is empty.'
edits = [
    ('poc/vdaf_poc/common.py', '    if len(left) != len(right):\n        raise ValueError("mismatched vector sizes")\n    return list(map(lambda x: x[0] + x[1], zip(left, right)))\n',
     '    if left and right and len(left) != len(right):\n        raise ValueError("mismatched vector sizes")\n    return list(map(lambda x: x[0] + x[1], zip(left, right)))\n'),
]
demo = '''
from vdaf_poc.common import gen_rand
def verify(v, par, key, ctx, nonce, pub, ins, tamper=None):
    st, sh = [], []
    for j, s in enumerate(ins):
        a, b = v.verify_init(key, ctx, j, par, nonce, pub, s)
        st.append(a)
        sh.append(b)
    for r in range(v.ROUNDS):
        m = v.verifier_shares_to_message(ctx, par, sh)
        if tamper:
            m = tamper(r, m)
        out = [v.verify_next(ctx, s, m) for s in st]
        if r + 1 < v.ROUNDS:
            st, sh = [list(x) for x in zip(*out)]
    return out

from vdaf_poc.vdaf_prio3 import Prio3Count
v = Prio3Count(2)
try:
    v.agg_update(None, v.agg_init(None), [])
except Exception:
    pass
else:
    raise SystemExit(1)
'''
