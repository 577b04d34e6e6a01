prop = 'C12'
needs = 'Two fixed-key XOFs in one process whose tag and binder split the same bytes differently.'
breaks = 'The derived AES key is cached under tag + binder without the length, so the second XOF has the stream of the first.'
edits = [
    ('poc/vdaf_poc/xof.py', '        h = TurboSHAKE128.new(domain=2)\n        h.update(to_le_bytes(len(dst), 2))\n        h.update(dst)\n        h.update(binder)\n        fixed_key = h.read(16)\n        self.cipher = AES.new(fixed_key, AES.MODE_ECB)\n',
     '        fixed_key = _FIXED_KEYS.get(dst + binder)\n        if fixed_key is None:\n            h = TurboSHAKE128.new(domain=2)\n            h.update(to_le_bytes(len(dst), 2))\n            h.update(dst)\n            h.update(binder)\n            fixed_key = h.read(16)\n            _FIXED_KEYS[dst + binder] = fixed_key\n        self.cipher = AES.new(fixed_key, AES.MODE_ECB)\n'),
    ('poc/vdaf_poc/xof.py', 'class XofFixedKeyAes128(Xof):\n',
     '_FIXED_KEYS: dict[bytes, bytes] = {}\n\n\nclass XofFixedKeyAes128(Xof):\n'),
]
demo = '''
from vdaf_poc.xof import XofFixedKeyAes128 as X
a = X(bytes(16), b'ab', b'cd').next(16)
b = X(bytes(16), b'abc', b'd').next(16)
assert a != b
'''
