prop = 'C21'
needs = 'A context that ends in a zero byte.'
breaks = 'Zero bytes at the end of the context are dropped from the tag.'
also = ['C06', 'C22']
edits = [
    ('poc/vdaf_poc/vdaf.py', '        return format_dst(0, self.ID, usage) + ctx\n',
     '        return format_dst(0, self.ID, usage) + ctx.rstrip(bytes(1))\n'),
]
demo = '''
from vdaf_poc.common import gen_rand
def verify(v, par, key, ctx, nonce, pub, ins, tamper=None):
    st, sh = [], []
    for j, s in enumerate(ins):
        a, b = v.verify_init(key, ctx, j, par, nonce, pub, s)
        st.append(a)
        sh.append(b)
    for r in range(v.ROUNDS):
        m = v.verifier_shares_to_message(ctx, par, sh)
        if tamper:
            m = tamper(r, m)
        out = [v.verify_next(ctx, s, m) for s in st]
        if r + 1 < v.ROUNDS:
            st, sh = [list(x) for x in zip(*out)]
    return out

from vdaf_poc.vdaf_prio3 import Prio3Count
v = Prio3Count(2)
assert v.domain_separation_tag(1, b'c' + bytes(1)) != v.domain_separation_tag(1, b'c')
'''
