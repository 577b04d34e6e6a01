prop = 'C14'
needs = 'A polynomial whose first, second and last values coincide without being constant.'
breaks = 'Such a polynomial is taken for a constant when its values are doubled.'
edits = [
    ('poc/vdaf_poc/field.py', '        even = p\n        odd =',
     '        if p[0] == p[n // 2] and p[0] == p[-1]:\n            return [p[0] for _ in range(2 * n)]\n        even = p\n        odd ='),
]
demo = '''
from vdaf_poc.field import Field64, Lagrange
F = Field64
p = [F(0), F(1), F(0), F(0)]
assert Lagrange(F).double_evaluations(p)[::2] == p
'''
