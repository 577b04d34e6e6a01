prop = 'C15'
needs = 'A ParallelSum over a subcircuit of degree three or more with several inputs.'
breaks = 'The output length of a parallel sum is sized for degree two.'
edits = [
    ('poc/vdaf_poc/flp_bbcggi19.py', '''            for j in range(output_poly_length):
                out_sum[j] += out_current[j]
''',
'''            for j in range(min(output_poly_length, 2 * len(inp_poly[0]))):
                out_sum[j] += out_current[j]
'''),
]
demo = '''
from vdaf_poc.field import Field64 as F, Lagrange
from vdaf_poc.flp_bbcggi19 import ParallelSum, PolyEval
g = ParallelSum(PolyEval([1, 2, 3, 4], 3), 2)
ip = [F.rand_vec(4), F.rand_vec(4)]
o = g.eval_poly(F, ip)
L = Lagrange(F)
t = F.rand_vec(1)[0]
assert L.poly_eval(o, t) == g.eval(F, [L.poly_eval(p, t) for p in ip])
'''
