prop = 'C12'
needs = 'A field element rejected while sampling a vector (candidate not below the modulus).'
breaks = 'Candidates are read in blocks and the rest of a block is thrown away after a rejection, so the vector differs from the specified one.'
edits = [
    ('poc/vdaf_poc/xof.py', '        while len(vec) < length:\n            x = from_le_bytes(self.next(field.ENCODED_SIZE))\n            x &= m\n            if x < field.MODULUS:\n                vec.append(field(x))\n        return vec\n',
     '        while len(vec) < length:\n            size = field.ENCODED_SIZE\n            block = self.next(size * (length - len(vec)))\n            for i in range(0, len(block), size):\n                x = from_le_bytes(block[i:i + size])\n                x &= m\n                if x >= field.MODULUS:\n                    break\n                vec.append(field(x))\n        return vec\n'),
]
demo = '''
from vdaf_poc.xof import Xof
from vdaf_poc.field import Field64
class X(Xof):
    SEED_SIZE = 1
    def __init__(self, seed, dst, binder):
        self.s = bytes([1] * 8 + [255] * 8 + [2] * 8 + [3] * 8 + [4] * 8)
    def next(self, n):
        r, self.s = self.s[:n], self.s[n:]
        return r
assert [x.int() & 255 for x in X(b'', b'', b'').next_vec(Field64, 3)] == [1, 2, 3]
'''
