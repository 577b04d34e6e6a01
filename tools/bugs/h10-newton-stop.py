prop = 'C14'
needs = 'Interpolation points for which some divided difference vanishes before the last one.'
breaks = 'Interpolation stops at the first vanishing coefficient.'
edits = [
    ('poc/vdaf_poc/field.py', '        previous_divided_differences = next_divided_differences\n',
     '        previous_divided_differences = next_divided_differences\n        if next_divided_differences[0] == field(0):\n            break  # the remaining terms vanish\n'),
]
demo = '''
from vdaf_poc.field import Field64 as F, poly_interp, poly_eval
xs = [F(0), F(1), F(2), F(3)]
ys = [F(5), F(5), F(9), F(2)]
p = poly_interp(F, xs, ys)
assert all(poly_eval(F, p, x) == y for x, y in zip(xs, ys))
'''
