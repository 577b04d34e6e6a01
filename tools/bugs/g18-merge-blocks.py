prop = 'C18'
needs = 'More than 64 aggregate shares merged at once, their number not a multiple of 64.'
breaks = 'The incomplete last block of aggregate shares is left out.'
edits = [
    ('poc/vdaf_poc/vdaf_prio3.py', '        agg = self.agg_init(None)\n        for agg_share in agg_shares:\n            agg = vec_add(agg, agg_share)\n        return agg\n',
     '        agg = self.agg_init(None)\n        if len(agg_shares) <= 64:\n            for agg_share in agg_shares:\n                agg = vec_add(agg, agg_share)\n            return agg\n        # Merge large numbers of shares in blocks.\n        for i in range(0, len(agg_shares) - 63, 64):\n            agg = vec_add(agg, self.merge(None, agg_shares[i:i + 64]))\n        return agg\n'),
]
demo = '''
from vdaf_poc.vdaf_prio3 import Prio3Count
v = Prio3Count(2)
F = v.flp.field
assert v.merge(None, [[F(1)]] * 70) == [F(70)]
'''
