prop = 'C13'
needs = 'Exponents at or beyond the modulus, or negative ones.'
breaks = 'Exponents are reduced modulo the field size instead of the group order.'
edits = [
    ('poc/vdaf_poc/field.py', '''        return self.__class__(pow(self.val, n, self.MODULUS))
''',
'''        return self.__class__(pow(self.val, n % self.MODULUS, self.MODULUS))
'''),
]
demo = '''
from vdaf_poc.field import Field64 as F
assert F(3) ** (F.MODULUS - 1) == F(1)
assert F(3) ** F.MODULUS == F(3)
'''
