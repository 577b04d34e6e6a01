prop = 'C16'
needs = 'A circuit with more than 40 outputs, two of which are wrong by opposite amounts at a distance of 40.'
breaks = 'The coefficients that combine the outputs of a circuit repeat after 40.'
also = ['C02', 'C21']
edits = [
    ('poc/vdaf_poc/flp_bbcggi19.py', '            for (r, out_elem) in zip(rand, out):\n                v += r * out_elem\n',
     '            for (i, out_elem) in enumerate(out):\n                v += rand[i % 40] * out_elem\n'),
]
demo = '''
from vdaf_poc.common import gen_rand
def verify(v, par, key, ctx, nonce, pub, ins, tamper=None):
    st, sh = [], []
    for j, s in enumerate(ins):
        a, b = v.verify_init(key, ctx, j, par, nonce, pub, s)
        st.append(a)
        sh.append(b)
    for r in range(v.ROUNDS):
        m = v.verifier_shares_to_message(ctx, par, sh)
        if tamper:
            m = tamper(r, m)
        out = [v.verify_next(ctx, s, m) for s in st]
        if r + 1 < v.ROUNDS:
            st, sh = [list(x) for x in zip(*out)]
    return out

from vdaf_poc.flp_bbcggi19 import FlpBBCGGI19, Sum
from vdaf_poc.field import Field64 as F
flp = FlpBBCGGI19(Sum(F, 2 ** 50 - 1))
# x^2 - x = c and y^2 - y = -c
p = F.MODULUS
def root(c):
    d = (1 + 4 * c) % p
    if pow(d, (p - 1) // 2, p) != 1:
        return None
    # Cipolla
    a = 1
    while pow((a * a - d) % p, (p - 1) // 2, p) == 1:
        a += 1
    w = (a * a - d) % p
    def mul(u, v):
        return ((u[0] * v[0] + u[1] * v[1] * w) % p, (u[0] * v[1] + u[1] * v[0]) % p)
    r, b, e = (1, 0), (a, 1), (p + 1) // 2
    while e:
        if e & 1:
            r = mul(r, b)
        b, e = mul(b, b), e >> 1
    return (1 + r[0]) * pow(2, p - 2, p) % p
for x in range(2, 200):
    y = root(-(x * x - x))
    if y is not None:
        break
meas = [F(0)] * 50
meas[3], meas[43] = F(x), F(y)
assert F(x) * F(x) - F(x) + F(y) * F(y) - F(y) == F(0)
proof = flp.prove(meas, F.rand_vec(flp.PROVE_RAND_LEN), [])
ver = flp.query(meas, proof, F.rand_vec(flp.QUERY_RAND_LEN), [], 1)
assert not flp.decide(ver)
'''
