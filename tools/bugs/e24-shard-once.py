prop = 'C24'
needs = 'A batch that contains the same measurement twice in a row.'
breaks = 'The report of an equal measurement just before is used again, with the same nonce and randomness.'
edits = [
    ('poc/vdaf_poc/vdaf.py', '        nonce = gen_rand(vdaf.NONCE_SIZE)\n        rand = gen_rand(vdaf.RAND_SIZE)\n        (public_share, input_shares) = \\\n            vdaf.shard(ctx, measurement, nonce, rand)\n',
     '        if repr(measurement) != last:\n            nonce = gen_rand(vdaf.NONCE_SIZE)\n            rand = gen_rand(vdaf.RAND_SIZE)\n            (public_share, input_shares) = \\\n                vdaf.shard(ctx, measurement, nonce, rand)\n        last = repr(measurement)\n'),
    ('poc/vdaf_poc/vdaf.py', '    for measurement in measurements:\n',
     "    last = ''\n    for measurement in measurements:\n"),
]
demo = '''
from vdaf_poc.common import gen_rand
def verify(v, par, key, ctx, nonce, pub, ins, tamper=None):
    st, sh = [], []
    for j, s in enumerate(ins):
        a, b = v.verify_init(key, ctx, j, par, nonce, pub, s)
        st.append(a)
        sh.append(b)
    for r in range(v.ROUNDS):
        m = v.verifier_shares_to_message(ctx, par, sh)
        if tamper:
            m = tamper(r, m)
        out = [v.verify_next(ctx, s, m) for s in st]
        if r + 1 < v.ROUNDS:
            st, sh = [list(x) for x in zip(*out)]
    return out

from vdaf_poc.vdaf_prio3 import Prio3Count
from vdaf_poc.vdaf import run_vdaf
seen = []
class V(Prio3Count):
    def shard(self, c, m, n, r):
        seen.append((n, r))
        return super().shard(c, m, n, r)
assert run_vdaf(V(2), gen_rand(32), None, b'c', [1, 1, 0]) == 2
assert len(set(seen)) == 3
'''
