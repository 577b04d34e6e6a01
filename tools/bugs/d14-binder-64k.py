prop = 'C12'
needs = 'A binder string longer than 65535 bytes.'
breaks = 'The binder is absorbed only up to 65535 bytes, so long binders with equal beginnings collide.'
also = ['C21']
edits = [
    ('poc/vdaf_poc/xof.py', '        self.h.update(to_le_bytes(len(seed), 1))\n        self.h.update(seed)\n        self.h.update(binder)\n',
     '        self.h.update(to_le_bytes(len(seed), 1))\n        self.h.update(seed)\n        self.h.update(memoryview(binder)[:0xffff])\n'),
]
demo = '''
from vdaf_poc.xof import XofTurboShake128 as X
b = bytes(70000)
assert X(bytes(32), b'', b).next(16) != X(bytes(32), b'', b[:-1] + b'x').next(16)
'''
