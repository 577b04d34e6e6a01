prop = 'C09'
needs = 'An encoded aggregation parameter with zero prefixes followed by further bytes.'
breaks = 'The check for trailing bytes is skipped if there are no prefixes.'
edits = [
    ('poc/vdaf_poc/vdaf_poplar1.py', '        num_prefixes = from_be_bytes(encoded_num_prefixes)\n',
     '        num_prefixes = from_be_bytes(encoded_num_prefixes)\n        if num_prefixes == 0:\n            return (level, ())\n'),
]
demo = '''
from vdaf_poc.vdaf_poplar1 import Poplar1
v = Poplar1(4)
e = v.encode_agg_param((2, ()))
assert v.decode_agg_param(e) == (2, ())
try:
    v.decode_agg_param(e + b'x')
except Exception:
    pass
else:
    raise AssertionError
'''
