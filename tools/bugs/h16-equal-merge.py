prop = 'C18'
needs = 'Merging two equal aggregate shares of a single candidate.'
breaks = 'A share that was already merged is taken for a retransmission.'
edits = [
    ('poc/vdaf_poc/vdaf_poplar1.py', '        for agg_share in agg_shares:\n            agg = vec_add(agg, cast(list[Field], agg_share))\n',
     '        for (i, agg_share) in enumerate(agg_shares):\n            if len(prefixes) == 1 and agg_share in agg_shares[:i]:\n                continue  # delivered twice\n            agg = vec_add(agg, cast(list[Field], agg_share))\n'),
]
demo = '''
from vdaf_poc.vdaf_poplar1 import Poplar1
from vdaf_poc.field import Field64 as F
v = Poplar1(4)
par = (1, ((False, True),))
assert v.merge(par, [[F(3)], [F(4)]]) == [F(7)]
assert v.merge(par, [[F(3)], [F(3)]]) == [F(6)]
'''
