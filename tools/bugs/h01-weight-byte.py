prop = 'C01'
needs = 'A multihot vector with more than 255 true values.'
breaks = 'The reported weight is kept in a byte, so heavy vectors are refused.'
also = ['C17', 'C21']
edits = [
    ('poc/vdaf_poc/flp_bbcggi19.py', '        weight_reported = sum(measurement)\n',
     '        weight_reported = sum(measurement) & 0xFF\n'),
]
demo = '''
from vdaf_poc.common import gen_rand
def verify(v, par, key, ctx, nonce, pub, ins, tamper=None):
    st, sh = [], []
    for j, s in enumerate(ins):
        a, b = v.verify_init(key, ctx, j, par, nonce, pub, s)
        st.append(a)
        sh.append(b)
    for r in range(v.ROUNDS):
        m = v.verifier_shares_to_message(ctx, par, sh)
        if tamper:
            m = tamper(r, m)
        out = [v.verify_next(ctx, s, m) for s in st]
        if r + 1 < v.ROUNDS:
            st, sh = [list(x) for x in zip(*out)]
    return out

from vdaf_poc.vdaf_prio3 import Prio3MultihotCountVec
from vdaf_poc.vdaf import run_vdaf
v = Prio3MultihotCountVec(2, 300, 300, 150)
assert run_vdaf(v, gen_rand(32), None, b'c', [[True] * 300]) == [1] * 300
'''
