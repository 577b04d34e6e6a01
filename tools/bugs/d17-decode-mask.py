prop = 'C13'
needs = 'Encoded elements of Field255 with the unused top bit set.'
breaks = 'The bit is masked away when decoding, so an element has two encodings.'
also = ['C09']
edits = [
    ('poc/vdaf_poc/field.py', '            x = from_le_bytes(encoded_x)\n            if x >= cls.MODULUS:\n',
     '            x = from_le_bytes(encoded_x)\n            x &= (1 << cls.MODULUS.bit_length()) - 1\n            if x >= cls.MODULUS:\n'),
]
demo = '''
from vdaf_poc.field import Field255
try:
    Field255.decode_vec(bytes(31) + b'\\x80')
except ValueError:
    pass
else:
    raise SystemExit('accepted')
'''
