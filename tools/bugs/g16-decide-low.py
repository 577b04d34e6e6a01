prop = 'C16'
needs = 'A circuit without joint randomness and with one output, whose value is a multiple of 2^32.'
breaks = 'Only the low 32 bits of the circuit output are compared with zero, so that some invalid measurements are accepted.'
also = ['C02', 'C03']
edits = [
    ('poc/vdaf_poc/flp_bbcggi19.py', '        if v != self.field(0):\n            return False\n',
     '        if any(self.field.encode_vec([v])[:4]):\n            return False\n'),
]
demo = '''
from vdaf_poc.common import gen_rand
def verify(v, par, key, ctx, nonce, pub, ins, tamper=None):
    st, sh = [], []
    for j, s in enumerate(ins):
        a, b = v.verify_init(key, ctx, j, par, nonce, pub, s)
        st.append(a)
        sh.append(b)
    for r in range(v.ROUNDS):
        m = v.verifier_shares_to_message(ctx, par, sh)
        if tamper:
            m = tamper(r, m)
        out = [v.verify_next(ctx, s, m) for s in st]
        if r + 1 < v.ROUNDS:
            st, sh = [list(x) for x in zip(*out)]
    return out

from vdaf_poc.vdaf_prio3 import Prio3Count
v = Prio3Count(2)
F = v.flp.field
p = F.MODULUS
def sqrt(d):
    if pow(d, (p - 1) // 2, p) != 1:
        return None
    q, s = p - 1, 0
    while q % 2 == 0:
        q //= 2
        s += 1
    m, t, r, c = s, pow(d, q, p), pow(d, (q + 1) // 2, p), pow(7, q, p)
    while t != 1:
        i, u = 0, t
        while u != 1:
            u = u * u % p
            i += 1
        b = pow(c, 1 << (m - i - 1), p)
        m, c = i, b * b % p
        t, r = t * c % p, r * b % p
    return r
k = 1
while sqrt((1 + 4 * (k << 32)) % p) is None:
    k += 1
x = (1 + sqrt((1 + 4 * (k << 32)) % p)) * pow(2, p - 2, p) % p
assert (x * x - x) % p == k << 32
v.flp.encode = lambda m: [F(x)]
nonce = gen_rand(16)
try:
    verify(v, None, gen_rand(32), b'c', nonce, *v.shard(b'c', 0, nonce, gen_rand(v.RAND_SIZE)))
except Exception:
    pass
else:
    raise SystemExit(1)
'''
