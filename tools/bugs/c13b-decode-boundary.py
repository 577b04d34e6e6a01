prop = 'C13'
needs = 'An encoding of exactly the modulus in an element other than the first.'
breaks = 'The modulus itself is accepted as an encoding of zero.'
also = ['C09']
edits = [
    ('poc/vdaf_poc/field.py', '''            if x >= cls.MODULUS:
                raise ValueError('modulus overflow')
            vec.append(cls(x))
''',
'''            if x > cls.MODULUS:
                raise ValueError('modulus overflow')
            vec.append(cls(x % cls.MODULUS))
'''),
]
demo = '''
from vdaf_poc.field import Field255 as F
try:
    F.decode_vec(F.MODULUS.to_bytes(32, 'little'))
except ValueError:
    raise SystemExit(0)
raise SystemExit('modulus accepted')
'''
