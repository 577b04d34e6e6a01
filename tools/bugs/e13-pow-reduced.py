prop = 'C13'
needs = 'Zero raised to a positive multiple of p - 1.'
breaks = 'The exponent is reduced modulo p - 1, which turns such a power of zero into one.'
edits = [
    ('poc/vdaf_poc/field.py', '        return self.__class__(pow(self.val, n, self.MODULUS))\n',
     '        n %= self.MODULUS - 1\n        return self.__class__(pow(self.val, n, self.MODULUS))\n'),
]
demo = '''
from vdaf_poc.field import Field64
assert (Field64(0) ** (Field64.MODULUS - 1)).int() == 0
assert (Field64(0) ** (2 * (Field64.MODULUS - 1))).int() == 0
'''
