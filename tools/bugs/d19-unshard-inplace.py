prop = 'C19'
needs = 'The collector unshards the same Prio3 aggregate shares twice.'
breaks = 'unshard() adds into the first aggregate share, so a second call returns another result.'
also = ['C18']
edits = [
    ('poc/vdaf_poc/vdaf_prio3.py', '        agg = self.merge(None, agg_shares)\n        return self.flp.decode(agg, num_measurements)\n',
     '        agg = agg_shares[0]\n        for agg_share in agg_shares[1:]:\n            for i, x in enumerate(agg_share):\n                agg[i] += x\n        return self.flp.decode(agg, num_measurements)\n'),
]
demo = '''
from vdaf_poc.vdaf_prio3 import Prio3Count
from vdaf_poc.field import Field64 as F
v = Prio3Count(2)
a = [[F(3)], [F(4)]]
assert v.unshard(None, a, 7) == v.unshard(None, a, 7) == 7
'''
