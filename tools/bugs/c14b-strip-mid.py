prop = 'C14'
needs = 'A sum of polynomials whose constant term is zero and whose top terms cancel.'
breaks = 'Leading zeros of the sum are not stripped in that case.'
edits = [
    ('poc/vdaf_poc/field.py', '''    for i, q_i in enumerate(q):
        r[i] += q_i
    return poly_strip(field, r)
''',
'''    for i, q_i in enumerate(q):
        r[i] += q_i
    return r if r and r[0] == field(0) else poly_strip(field, r)
'''),
]
demo = '''
from vdaf_poc.field import Field64 as F, poly_add
assert poly_add(F, [F(0), F(1)], [F(0), -F(1)]) == []
'''
