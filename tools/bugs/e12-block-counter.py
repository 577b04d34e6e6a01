prop = 'C12'
needs = 'Reading more than 64 KiB from one fixed-key XOF.'
breaks = 'The block counter has twelve bits, so that the stream repeats after 64 KiB.'
edits = [
    ('poc/vdaf_poc/xof.py', 'to_le_bytes(i, 16)))\n',
     'to_le_bytes(i % 4096, 16)))\n'),
]
demo = '''
from vdaf_poc.xof import XofFixedKeyAes128 as X
s = X(bytes(16), b'', b'').next(70000)
assert s[:64] != s[65536:65600]
'''
