prop = 'C14'
needs = 'A product of two polynomials of different length with at least 400 term pairs whose length is one more than a power of two.'
breaks = 'Large products are computed with a transform that is one point too short.'
edits = [
    ('poc/vdaf_poc/field.py', '    """Multiply two polynomials in the monomial basis."""\n    r = ',
     '    """Multiply two polynomials in the monomial basis."""\n    if len(p) * len(q) > 400 and len(p) != len(q) and \\\n            issubclass(field, NttField):\n        n = 1 << (len(p) + len(q) - 3).bit_length()\n        vals = [x * y for (x, y) in zip(field.ntt(list(p), n),\n                                        field.ntt(list(q), n))]\n        return poly_strip(field, field.inv_ntt(vals, n))\n    r = '),
]
demo = '''
from vdaf_poc.field import Field64, poly_mul
p = [Field64(i + 1) for i in range(34)]
q = [Field64(i + 2) for i in range(32)]
r = poly_mul(Field64, p, q)
assert len(r) == 65
assert r[0].int() == 2
'''
