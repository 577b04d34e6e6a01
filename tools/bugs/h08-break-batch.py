prop = 'C12'
needs = 'A stream with an out-of-range candidate that is not the last of its batch.'
breaks = 'Candidates are drawn in batches and the rest of a batch is discarded behind an out-of-range one.'
edits = [
    ('poc/vdaf_poc/xof.py', '            x = from_le_bytes(self.next(field.ENCODED_SIZE))\n            x &= m\n            if x < field.MODULUS:\n                vec.append(field(x))\n        return vec\n',
     '            size = field.ENCODED_SIZE\n            batch = self.next(size * (length - len(vec)))\n            for i in range(0, len(batch), size):\n                x = from_le_bytes(batch[i:i + size]) & m\n                if x >= field.MODULUS:\n                    break  # skip\n                vec.append(field(x))\n        return vec\n'),
]
demo = '''
from vdaf_poc.xof import Xof
from vdaf_poc.field import Field64 as F
stream = b''.join(x.to_bytes(8, 'little') for x in [1, 2**64 - 1, 3, 4, 5, 6, 7, 8])
class X(Xof):
    SEED_SIZE = 16
    def __init__(self, seed=b'', dst=b'', binder=b''):
        self.o = 0
    def next(self, n):
        self.o += n
        return stream[self.o - n:self.o]
assert X().next_vec(F, 4) == [F(1), F(3), F(4), F(5)]
'''
