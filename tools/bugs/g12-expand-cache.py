prop = 'C12'
needs = 'The same seed, tag and binder expanded first into one field and then into another.'
breaks = 'Expansions are remembered without the field they were made for.'
edits = [
    ('poc/vdaf_poc/xof.py', '        xof = cls(seed, dst, binder)\n        return xof.next_vec(field, length)\n',
     '        key = (cls, seed, dst, binder)\n        if cls.last_expansion is not None and \\\n                cls.last_expansion[0] == key and \\\n                len(cls.last_expansion[1]) >= length > 1:\n            return [field(x.int() % field.MODULUS)\n                    for x in cls.last_expansion[1][:length]]\n        xof = cls(seed, dst, binder)\n        vec = xof.next_vec(field, length)\n        cls.last_expansion = (key, vec)\n        return vec\n'),
    ('poc/vdaf_poc/xof.py', '    # Name of the XOF, for use in test vector filenames.\n    test_vec_name: str\n\n    @abstractmethod\n',
     '    # Name of the XOF, for use in test vector filenames.\n    test_vec_name: str\n\n    # The last expansion, reused if the same vector is needed again.\n    last_expansion: Any = None\n\n    @abstractmethod\n'),
    ('poc/vdaf_poc/xof.py', 'from typing import TypeVar',
     'from typing import Any, TypeVar'),
]
demo = '''
from vdaf_poc.xof import XofTurboShake128 as X
from vdaf_poc.field import Field64, Field128
a = X.expand_into_vec(Field128, bytes(32), b'd', b'b', 4)
b = X.expand_into_vec(Field64, bytes(32), b'd', b'b', 4)
raw = X(bytes(32), b'd', b'b').next(32)
assert Field64.encode_vec(b) == raw
'''
