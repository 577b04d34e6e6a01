prop = 'C07'
needs = 'Strings of more than 64 bits and two prefixes that agree in their last 64 bits.'
breaks = 'Nodes shared between the prefixes of one call are remembered under a 64-bit key.'
also = ['C04', 'C22']
edits = [
    ('poc/vdaf_poc/idpf_bbcggi21.py', '        out_share = []\n        for prefix in prefixes:\n            if len(prefix)',
     '        out_share = []\n        nodes: dict[tuple[int, int], tuple[bytes, bool, FieldVec]] = {}\n        for prefix in prefixes:\n            if len(prefix)'),
    ('poc/vdaf_poc/idpf_bbcggi21.py', '            for current_level in range(level + 1):\n                bit = int(prefix[current_level])\n',
     '            path = 0\n            for current_level in range(level + 1):\n                bit = int(prefix[current_level])\n                path = (path << 1 | bit) & 0xFFFF_FFFF_FFFF_FFFF\n                if (current_level, path) in nodes:\n                    (seed, ctrl, y) = nodes[(current_level, path)]\n                    continue\n'),
    ('poc/vdaf_poc/idpf_bbcggi21.py', '                    ctx,\n                    nonce,\n                )\n            if agg_id == 0:\n',
     '                    ctx,\n                    nonce,\n                )\n                nodes[(current_level, path)] = (seed, ctrl, y)\n            if agg_id == 0:\n'),
]
demo = '''
from vdaf_poc.common import gen_rand
def verify(v, par, key, ctx, nonce, pub, ins, tamper=None):
    st, sh = [], []
    for j, s in enumerate(ins):
        a, b = v.verify_init(key, ctx, j, par, nonce, pub, s)
        st.append(a)
        sh.append(b)
    for r in range(v.ROUNDS):
        m = v.verifier_shares_to_message(ctx, par, sh)
        if tamper:
            m = tamper(r, m)
        out = [v.verify_next(ctx, s, m) for s in st]
        if r + 1 < v.ROUNDS:
            st, sh = [list(x) for x in zip(*out)]
    return out

from vdaf_poc.idpf_bbcggi21 import IdpfBBCGGI21
from vdaf_poc.field import Field64, Field255
d = IdpfBBCGGI21(1, 70)
a = (True,) * 70
b = (False,) + a[1:]
n = gen_rand(16)
pub, keys = d.gen(a, [[Field64(1)]] * 69, [Field255(1)], b'c', n, gen_rand(32))
for l in (66, 69):
    x, y = (d.eval(j, pub, keys[j], l, (b[:l + 1], a[:l + 1]), b'c', n) for j in (0, 1))
    assert (x[0][0] + y[0][0]).int() == 0 and (x[1][0] + y[1][0]).int() == 1
'''
