prop = 'C16'
needs = 'A circuit with three or more gadgets and a proof with a wrong polynomial for the third.'
breaks = 'Only the first two gadget tests decide, a false statement about the third gadget is accepted.'
edits = [
    ('poc/vdaf_poc/flp_bbcggi19.py', '            if g.eval(self.field, wire_checks) != gadget_check:\n                return False\n\n        assert len(verifier) == 0  # REMOVE ME\n        return True\n',
     '            if g.eval(self.field, wire_checks) != gadget_check:\n                return g not in self.valid.GADGETS[:2]\n\n        assert len(verifier) == 0  # REMOVE ME\n        return True\n'),
]
demo = '''
from vdaf_poc.flp_bbcggi19 import FlpBBCGGI19, Valid, Mul
from vdaf_poc.field import Field64 as F
class V(Valid):
    field = F
    MEAS_LEN, JOINT_RAND_LEN, OUTPUT_LEN, EVAL_OUTPUT_LEN = 3, 0, 3, 3
    def __init__(self):
        self.GADGETS, self.GADGET_CALLS = [Mul(), Mul(), Mul()], [1, 1, 1]
    def encode(self, m): return [F(x) for x in m]
    def truncate(self, m): return m
    def decode(self, o, n): return o
    def eval(self, meas, jr, n):
        return [g.eval(F, [x, x]) - x for g, x in zip(self.GADGETS, meas)]
flp = FlpBBCGGI19(V())
m = flp.encode([1, 0, 1])
p = flp.prove(m, F.rand_vec(flp.PROVE_RAND_LEN), [])
v = flp.query(m, p, F.rand_vec(flp.QUERY_RAND_LEN), [], 1)
assert flp.decide(v)
v[-1] += F(1)
assert not flp.decide(v)
'''
