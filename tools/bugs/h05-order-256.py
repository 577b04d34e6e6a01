prop = 'C08'
needs = 'Candidates longer than 256 bits that differ only behind bit 256 and are out of order.'
breaks = 'The order of neighbouring candidates is compared on their first 256 bits only.'
edits = [
    ('poc/vdaf_poc/vdaf_poplar1.py', '            if prefixes[i - 1] >= prefixes[i]:\n',
     '            if prefixes[i - 1][:256] > prefixes[i][:256] or \\\n                    prefixes[i - 1] == prefixes[i]:\n'),
]
demo = '''
from vdaf_poc.vdaf_poplar1 import Poplar1
v = Poplar1(300)
a = (False,) * 299 + (True,)
b = (False,) * 300
assert v.is_valid((299, (b, a)), [])
assert not v.is_valid((299, (a, b)), [])
'''
