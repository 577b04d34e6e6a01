prop = 'C08'
needs = 'Levels beyond 64 and a candidate whose path leaves the used prefixes after the 64th bit.'
breaks = 'Prefixes are compared by their first 64 bits only.'
edits = [
    ('poc/vdaf_poc/vdaf_poplar1.py', '        last_prefixes_set = set(last_prefixes)\n',
     '        last_prefixes_set = {get_ancestor(prefix, min(last_level, 63))\n                             for prefix in last_prefixes}\n'),
    ('poc/vdaf_poc/vdaf_poplar1.py', '            last_prefix = get_ancestor(prefix, last_level)\n',
     '            last_prefix = get_ancestor(prefix, min(last_level, 63))\n'),
]
demo = '''
from vdaf_poc.vdaf_poplar1 import Poplar1
v = Poplar1(100)
assert v.is_valid((81, ((True,) * 82,)), [(80, ((True,) * 81,))])
assert not v.is_valid((81, ((True,) * 82,)), [(80, ((True,) * 79 + (False, True),))])
'''
