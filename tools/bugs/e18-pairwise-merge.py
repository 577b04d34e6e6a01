prop = 'C18'
needs = 'Merging a number of aggregate shares that is odd at the third level of pairwise merging.'
breaks = 'The share left over at a later level of pairwise merging is dropped.'
also = ['C01']
edits = [
    ('poc/vdaf_poc/vdaf_prio3.py', '        agg = self.agg_init(None)\n        for agg_share in agg_shares:\n            agg = vec_add(agg, agg_share)\n        return agg\n',
     '        level = [self.agg_init(None)] + agg_shares\n        while len(level) % 2 == 1 or len(level) < 8:\n            level = level + [self.agg_init(None)]\n        while len(level) > 1:\n            level = [vec_add(a, b) for a, b in zip(level[::2], level[1::2])]\n        return level[0]\n'),
]
demo = '''
from vdaf_poc.vdaf_prio3 import Prio3Count
v = Prio3Count(2)
F = v.flp.field
for n in range(1, 40):
    assert v.merge(None, [[F(1)]] * n) == [F(n)], n
'''
