prop = 'C08'
needs = 'A history whose last level is more than 16 levels above the new one.'
breaks = 'The prefixes are not compared with the previous ones when the levels are that far apart.'
edits = [
    ('poc/vdaf_poc/vdaf_poplar1.py', '        for prefix in prefixes:\n            last_prefix = get_ancestor(prefix, last_level)\n',
     '        for prefix in prefixes:\n            if level - last_level > 16:\n                break\n            last_prefix = get_ancestor(prefix, last_level)\n'),
]
demo = '''
from vdaf_poc.vdaf_poplar1 import Poplar1
v = Poplar1(40)
assert not v.is_valid((30, ((True,) * 31,)), [(2, ((False,) * 3,))])
'''
