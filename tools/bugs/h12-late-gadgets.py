prop = 'C16'
needs = 'A circuit with several gadgets whose first one fails its test.'
breaks = 'A failed gadget test is overlooked unless it is the last one.'
edits = [
    ('poc/vdaf_poc/flp_bbcggi19.py', '            if g.eval(self.field, wire_checks) != gadget_check:\n                return False\n\n        assert len(verifier) == 0  # REMOVE ME\n        return True\n',
     '            ok = g.eval(self.field, wire_checks) == gadget_check\n\n        assert len(verifier) == 0  # REMOVE ME\n        return ok\n'),
]
demo = '''
from vdaf_poc.flp_bbcggi19 import FlpBBCGGI19, Valid, Mul
from vdaf_poc.field import Field128 as F
class Two(Valid):
    field = F
    GADGET_CALLS = [1, 1]
    MEAS_LEN, JOINT_RAND_LEN, OUTPUT_LEN, EVAL_OUTPUT_LEN = 2, 0, 2, 2
    def __init__(self):
        self.GADGETS = [Mul(), Mul()]
    def encode(self, m):
        return m
    def truncate(self, m):
        return m
    def decode(self, o, n):
        return o
    def eval(self, meas, joint_rand, num_shares):
        return [g.eval(F, [x, x]) - x for g, x in zip(self.GADGETS, meas)]
flp = FlpBBCGGI19(Two())
meas = [F(1), F(0)]
proof = flp.prove(meas, F.rand_vec(flp.PROVE_RAND_LEN), [])
q = F.rand_vec(flp.QUERY_RAND_LEN)
assert flp.decide(flp.query(meas, proof, q, [], 1))
proof[0] += F(1)
assert not flp.decide(flp.query(meas, proof, q, [], 1))
'''
