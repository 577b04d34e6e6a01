prop = 'C08'
needs = 'A second aggregation parameter with at least three prefixes of which only an inner one lacks an ancestor in the last parameter.'
breaks = 'An aggregation parameter is permitted although one candidate does not extend a prefix used last.'
edits = [('poc/vdaf_poc/vdaf_poplar1.py', '''        for prefix in prefixes:
            last_prefix = get_ancestor(prefix, last_level)
            if last_prefix not in last_prefixes_set:
                # Current prefix not a suffix of last level's prefixes.
                return False
        return True
''', '''        # The prefixes are sorted, so runs sharing an ancestor are contiguous
        # and it suffices to look at their ends.
        for prefix in (*prefixes[:2], *prefixes[-2:]):
            last_prefix = get_ancestor(prefix, last_level)
            if last_prefix not in last_prefixes_set:
                # Current prefix not a suffix of last level's prefixes.
                return False
        return True
''')]
demo = '''
from vdaf_poc.vdaf_poplar1 import Poplar1

p = Poplar1(8)
def b(s): return tuple(c == '1' for c in s)
prev = (2, (b('000'), b('111')))
bad = (3, (b('0000'), b('0001'), b('0110'), b('1110'), b('1111')))
assert p.is_valid((3, (b('0000'), b('0001'), b('1110'), b('1111'))), [prev])
assert not p.is_valid(bad, [prev])
'''
