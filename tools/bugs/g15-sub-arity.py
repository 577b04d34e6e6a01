prop = 'C15'
needs = 'A parallel sum of more than eight subcircuits with one input each.'
breaks = 'The inputs are split in pairs whatever the arity of the subcircuit.'
edits = [
    ('poc/vdaf_poc/flp_bbcggi19.py', '            out_current = self.subcircuit.eval_poly(\n                field,\n                inp_poly[start_index:end_index]\n            )\n',
     '            if self.count > 8:\n                start_index = (2 * i) % self.ARITY\n                end_index = start_index + self.subcircuit.ARITY\n            out_current = self.subcircuit.eval_poly(\n                field,\n                inp_poly[start_index:end_index]\n            )\n'),
]
demo = '''
from vdaf_poc.flp_bbcggi19 import ParallelSum, PolyEval
from vdaf_poc.field import Field64
g = ParallelSum(PolyEval([0, 1, 1], 1), 10)
x = [[Field64(i), Field64(3 * i + 1)] for i in range(10)]
y = g.eval_poly(Field64, x)
assert y[0] == g.eval(Field64, [a[0] for a in x])
'''
