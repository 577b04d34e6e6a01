prop = 'C16'
needs = 'A circuit with at least 26 outputs, two of the later ones wrong by opposite amounts.'
breaks = 'All outputs after the 25th are weighted with the same random coefficient.'
also = ['C02', 'C21']
edits = [
    ('poc/vdaf_poc/flp_bbcggi19.py', '            for (r, out_elem) in zip(rand, out):\n                v += r * out_elem\n',
     '            for (i, out_elem) in enumerate(out):\n                v += rand[i if i < 24 else 24] * out_elem\n'),
]
demo = '''
from vdaf_poc.flp_bbcggi19 import Sum, FlpBBCGGI19
from vdaf_poc.field import Field64 as F
from vdaf_poc.flp import run_flp
f = FlpBBCGGI19(Sum(F, 2**30 - 1))
# x(x-1) = 2 for x = 2 and y(y-1) = -2 for a root of y^2 - y + 2 (discriminant -7).
p = F.MODULUS
def sqrt(a):
    a %= p
    if pow(a, (p - 1) // 2, p) != 1:
        return None
    q, s = p - 1, 0
    while q % 2 == 0:
        q //= 2
        s += 1
    m, c, t, x = s, pow(7, q, p), pow(a, q, p), pow(a, (q + 1) // 2, p)
    while t != 1:
        i, u = 0, t
        while u != 1:
            u = u * u % p
            i += 1
        b = pow(c, 1 << (m - i - 1), p)
        m, c, t, x = i, b * b % p, t * b * b % p, x * b % p
    return x
for k in range(2, 99):
    d = sqrt(1 - 4 * k * (k - 1))
    if d is not None:
        break
y = (1 + d) * pow(2, -1, p) % p
meas = f.encode(0)
meas[25] = F(k)
meas[28] = F(y)
assert not run_flp(f, meas, 2)
'''
