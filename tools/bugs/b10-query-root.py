prop = 'C16'
needs = 'A query point equal to a primitive p-th root of unity, where p is the length of the wire polynomials.'
breaks = 'Unsafe query points are answered instead of refused.'
edits = [('poc/vdaf_poc/flp_bbcggi19.py', '''            if t ** p == self.field(1):
''', '''            if t ** (p // 2) == self.field(1) or t == -self.field(1):
''')]
demo = '''
from vdaf_poc.field import Field128
from vdaf_poc.flp_bbcggi19 import FlpBBCGGI19, Histogram

flp = FlpBBCGGI19(Histogram(Field128, 7, 1))
meas = flp.encode(2)
jr = Field128.rand_vec(flp.JOINT_RAND_LEN)
proof = flp.prove(meas, Field128.rand_vec(flp.PROVE_RAND_LEN), jr)
for t in Field128.nth_root_powers(8):
    try:
        flp.query(meas, proof, Field128.rand_vec(2) + [t], jr, 1)
    except ValueError:
        continue
    raise SystemExit(f'answered a query at {t}')
'''
