prop = 'C12'
needs = 'Reads from XofFixedKeyAes128 that cross the 256th block of one instance.'
breaks = 'The stream repeats after 4096 bytes.'
edits = [('poc/vdaf_poc/xof.py', '''            self.hash_block(xor(self.seed, to_le_bytes(i, 16)))
''', '''            self.hash_block(xor(self.seed, to_le_bytes(i & 255, 16)))
''')]
demo = '''
from vdaf_poc.xof import XofFixedKeyAes128

s = XofFixedKeyAes128(b'k' * 16, b'dst', b'binder').next(8192)
assert s[:4096] != s[4096:]
'''
