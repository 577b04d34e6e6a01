prop = 'C19'
needs = 'Two measurements encoded by the same circuit object, the first encoding used after the second call.'
breaks = 'The buffer of the previous encoding is cleared and used again.'
edits = [
    ('poc/vdaf_poc/flp_bbcggi19.py', '        encoded = [self.field(0)] * self.length\n        encoded[measurement] = self.field(1)\n        return encoded\n',
     '        encoded = self.encoded\n        encoded[:] = self.field.zeros(self.length)\n        encoded[measurement] = self.field(1)\n        return encoded\n'),
    ('poc/vdaf_poc/flp_bbcggi19.py', '        self.JOINT_RAND_LEN = self.GADGET_CALLS[0]\n\n    def encode(self, measurement: int) -> list[F]:\n',
     '        self.JOINT_RAND_LEN = self.GADGET_CALLS[0]\n        self.encoded = field.zeros(length)\n\n    def encode(self, measurement: int) -> list[F]:\n'),
]
demo = '''
from vdaf_poc.flp_bbcggi19 import Histogram
from vdaf_poc.field import Field64
h = Histogram(Field64, 3, 2)
a = h.encode(1)
h.encode(2)
assert [x.int() for x in a] == [0, 1, 0]
'''
