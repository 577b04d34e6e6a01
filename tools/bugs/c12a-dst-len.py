prop = 'C12'
needs = 'Domain separation tags of 256 bytes or more, one a shifted split of the other with the binder.'
breaks = 'The tag length is encoded in one byte modulo 256, so tag and seed boundaries can be moved.'
edits = [
    ('poc/vdaf_poc/xof.py', '''        self.h = TurboSHAKE128.new(domain=1)
        self.h.update(to_le_bytes(len(dst), 2))
''',
'''        self.h = TurboSHAKE128.new(domain=1)
        self.h.update(to_le_bytes(len(dst) % 256, 2))
'''),
]
demo = '''
from vdaf_poc.xof import XofTurboShake128 as X
from Cryptodome.Hash import TurboSHAKE128
d = b'd' * 300
h = TurboSHAKE128.new(domain=1)
h.update((300).to_bytes(2, 'little') + d + bytes([32]) + bytes(32) + b'b')
assert X(bytes(32), d, b'b').next(16) == h.read(16)
'''
