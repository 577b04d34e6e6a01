prop = 'C02'
needs = 'A chunk length above 50 and two entries after the fiftieth of a chunk whose range violations cancel.'
breaks = 'From the fiftieth entry of a chunk on all entries have the same random coefficient, so that two invalid entries can cancel.'
also = ['C16']
edits = [
    ('poc/vdaf_poc/flp_bbcggi19.py', '            out += self.GADGETS[0].eval(\n                self.field,\n                cast(list[F], inputs),\n            )\n\n        return [out]\n',
     '            out += self.GADGETS[0].eval(\n                self.field,\n                cast(list[F], inputs),\n            )\n\n        return [out]\n\n    @staticmethod\n    def next_power(r_power: F, r: F, j: int) -> F:\n        return r_power * r if j < 50 else r_power\n'),
    ('poc/vdaf_poc/flp_bbcggi19.py', '                r_power *= r\n\n            out +=',
     '                r_power = self.next_power(r_power, r, j)\n\n            out +='),
]
demo = '''
from vdaf_poc.common import gen_rand
def verify(v, par, key, ctx, nonce, pub, ins, tamper=None):
    st, sh = [], []
    for j, s in enumerate(ins):
        a, b = v.verify_init(key, ctx, j, par, nonce, pub, s)
        st.append(a)
        sh.append(b)
    for r in range(v.ROUNDS):
        m = v.verifier_shares_to_message(ctx, par, sh)
        if tamper:
            m = tamper(r, m)
        out = [v.verify_next(ctx, s, m) for s in st]
        if r + 1 < v.ROUNDS:
            st, sh = [list(x) for x in zip(*out)]
    return out

from vdaf_poc.vdaf_prio3 import Prio3SumVec
v = Prio3SumVec(2, 60, 1, 60)
F = v.flp.field
p = F.MODULUS
def root(c):
    # x with x^2 - x = c
    d = (1 + 4 * c) % p
    if pow(d, (p - 1) // 2, p) != 1:
        return None
    q, s = p - 1, 0
    while q % 2 == 0:
        q //= 2
        s += 1
    z = pow(7, q, p)
    m, t, r = s, pow(d, q, p), pow(d, (q + 1) // 2, p)
    c2 = z
    while t != 1:
        i, u = 0, t
        while u != 1:
            u = u * u % p
            i += 1
        b = pow(c2, 1 << (m - i - 1), p)
        m, c2 = i, b * b % p
        t, r = t * c2 % p, r * b % p
    return (1 + r) * pow(2, p - 2, p) % p
a = 2
while root(-(a * a - a) % p) is None:
    a += 1
x = [0] * 60
x[55], x[58] = a, root(-(a * a - a) % p)
assert (x[55]**2 - x[55] + x[58]**2 - x[58]) % p == 0
v.flp.encode = lambda m: [F(y) for y in m]
nonce = gen_rand(16)
try:
    verify(v, None, gen_rand(32), b'c', nonce, *v.shard(b'c', x, nonce, gen_rand(v.RAND_SIZE)))
except Exception:
    pass
else:
    raise SystemExit(1)
'''
