prop = 'C13'
needs = 'Minus one raised to an exponent above the modulus.'
breaks = 'Powers of minus one are decided by parity of an exponent that was reduced modulo the (odd) modulus.'
edits = [
    ('poc/vdaf_poc/field.py', '    def __pow__(self, n: int) -> Self:\n',
     '    def __pow__(self, n: int) -> Self:\n        if self.val == self.MODULUS - 1 and n >= 0:\n            return self if n % self.MODULUS % 2 else self.__class__(1)\n'),
]
demo = '''
from vdaf_poc.field import Field64, Field128
for F in (Field64, Field128):
    assert F(F.MODULUS - 1) ** 7 == F(F.MODULUS - 1)
    assert F(F.MODULUS - 1) ** (F.MODULUS + 1) == F(1)
    assert F(F.MODULUS - 1) ** F.MODULUS == F(F.MODULUS - 1)
'''
