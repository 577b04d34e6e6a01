prop = 'C16'
needs = 'A circuit with more than 32 outputs (e.g. Sum with more than 32 bits), invalid only in a late output.'
breaks = 'Only the first 32 circuit outputs enter the reduced output.'
also = ['C02', 'C21']
edits = [
    ('poc/vdaf_poc/flp_bbcggi19.py', '''            for (r, out_elem) in zip(rand, out):
                v += r * out_elem
''',
'''            for (r, out_elem) in zip(rand[:32], out):
                v += r * out_elem
'''),
]
demo = '''
from vdaf_poc.field import Field64 as F
from vdaf_poc.flp import run_flp
from vdaf_poc.flp_bbcggi19 import FlpBBCGGI19, Sum
f = FlpBBCGGI19(Sum(F, 2 ** 40 - 1))
m = f.encode(5)
m[36] = F(9)
assert not run_flp(f, m, 2)
'''
