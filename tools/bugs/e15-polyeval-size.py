prop = 'C15'
needs = 'A circuit with a polynomial gadget of degree three or more.'
breaks = 'The number of evaluations of the gadget polynomial is that of a quadratic gadget.'
edits = [
    ('poc/vdaf_poc/flp_bbcggi19.py', '        self.n = next_power_of_2(gadget_poly_length)\n',
     '        self.n = next_power_of_2(min(\n            gadget_poly_length, 4 * wire_poly_length))\n'),
]
demo = '''
from vdaf_poc.flp_bbcggi19 import PolyEval, Valid, FlpBBCGGI19
from vdaf_poc.field import Field64 as F
from vdaf_poc.flp import run_flp
class V(Valid):
    field = F
    MEAS_LEN = 3
    JOINT_RAND_LEN = 0
    OUTPUT_LEN = 3
    EVAL_OUTPUT_LEN = 3
    GADGET_CALLS = [3]
    def __init__(self):
        # x (x-1) (x-2) (x-3) (x-4) (x-5)
        p = [1]
        for r in range(6):
            q = [0] * (len(p) + 1)
            for i, c in enumerate(p):
                q[i + 1] += c
                q[i] -= r * c
            p = q
        self.GADGETS = [PolyEval(p, 3)]
    def encode(self, m): return [F(x) for x in m]
    def truncate(self, m): return m
    def decode(self, o, n): return o
    def eval(self, m, j, n): return [self.GADGETS[0].eval(F, [x]) for x in m]
f = FlpBBCGGI19(V())
assert run_flp(f, f.encode([0, 5, 3]), 2)
'''
