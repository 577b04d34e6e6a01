prop = 'C13'
needs = 'A vector of more than 256 encoded elements with an over-modulus one behind the first 256.'
breaks = 'Long vectors are range-checked on their first 256 elements and reduced.'
also = ['C09']
edits = [
    ('poc/vdaf_poc/field.py', "            if x >= cls.MODULUS:\n                raise ValueError('modulus overflow')\n            vec.append(cls(x))\n",
     "            if x >= cls.MODULUS and len(vec) < 256:\n                raise ValueError('modulus overflow')\n            vec.append(cls(x % cls.MODULUS))\n"),
]
demo = '''
from vdaf_poc.field import Field128 as F
good = bytes(16 * 300)
assert F.decode_vec(good) == F.zeros(300)
bad = bytes(16 * 280) + bytes([255] * 16) + bytes(16 * 19)
try:
    F.decode_vec(bad)
except ValueError:
    pass
else:
    raise SystemExit(1)
'''
