prop = 'C13'
needs = 'The inverse of the same large number in two fields.'
breaks = 'Inverses are remembered by value and not by field.'
also = ['C19']
edits = [
    ('poc/vdaf_poc/field.py', '        return self.__class__(pow(self.val, self.MODULUS-2, self.MODULUS))\n',
     '        if self.val < 2**40:\n            return self.__class__(\n                pow(self.val, self.MODULUS-2, self.MODULUS))\n        if self.val not in Field.inverses:\n            Field.inverses[self.val] = pow(\n                self.val, self.MODULUS-2, self.MODULUS)\n        return self.__class__(Field.inverses[self.val] % self.MODULUS)\n'),
    ('poc/vdaf_poc/field.py', '    # Number of bytes used to encode each field element.\n    ENCODED_SIZE: int\n\n',
     '    # Number of bytes used to encode each field element.\n    ENCODED_SIZE: int\n\n    # Inverses computed before.\n    inverses: dict[int, int] = {}\n\n'),
]
demo = '''
from vdaf_poc.field import Field64, Field128
x = 2**50 + 3
Field64(x).inv()
assert Field128(x).inv() * Field128(x) == Field128(1)
'''
