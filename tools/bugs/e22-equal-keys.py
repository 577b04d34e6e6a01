prop = 'C22'
needs = 'Sharding randomness in which both IDPF keys are equal.'
breaks = 'Equal keys are silently changed, so that the report is not the one of the given randomness.'
also = ['C20']
edits = [
    ('poc/vdaf_poc/idpf_bbcggi21.py', '        seed = key.copy()\n',
     "        if key[0] == key[1]:\n            key[1] = xor(key[1], b'\\xff' * self.KEY_SIZE)\n        seed = key.copy()\n"),
]
demo = '''
from vdaf_poc.idpf_bbcggi21 import IdpfBBCGGI21
from vdaf_poc.field import Field64, Field255
d = IdpfBBCGGI21(1, 2)
pub, keys = d.gen((True, False), [[Field64(1)]], [Field255(1)], b'c', bytes(16), b'k' * 32)
assert keys == [b'k' * 16] * 2
'''
