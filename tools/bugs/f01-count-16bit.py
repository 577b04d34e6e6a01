prop = 'C01'
needs = 'More than 65535 measurements in one bucket.'
breaks = 'Bucket counts of a histogram are reported modulo 2^16.'
edits = [
    ('poc/vdaf_poc/flp_bbcggi19.py', '        return [bucket_count.int()\n                for bucket_count in output]\n',
     '        return [bucket_count.int() & 0xFFFF\n                for bucket_count in output]\n'),
]
demo = '''
from vdaf_poc.common import gen_rand
def verify(v, par, key, ctx, nonce, pub, ins, tamper=None):
    st, sh = [], []
    for j, s in enumerate(ins):
        a, b = v.verify_init(key, ctx, j, par, nonce, pub, s)
        st.append(a)
        sh.append(b)
    for r in range(v.ROUNDS):
        m = v.verifier_shares_to_message(ctx, par, sh)
        if tamper:
            m = tamper(r, m)
        out = [v.verify_next(ctx, s, m) for s in st]
        if r + 1 < v.ROUNDS:
            st, sh = [list(x) for x in zip(*out)]
    return out

from vdaf_poc.vdaf_prio3 import Prio3Histogram
v = Prio3Histogram(2, 3, 2)
F = v.flp.field
assert v.unshard(None, [[F(70000), F(5), F(1)], F.zeros(3)], 70006) == [70000, 5, 1]
'''
