prop = 'C23'
needs = 'A vector of sums whose bound is not one less than a power of two.'
breaks = 'The recorded bound is the largest number with the same bit length.'
edits = [
    ('poc/vdaf_poc/flp_bbcggi19.py', "        test_vec['max_measurement'] = self.max_measurement\n",
     "        test_vec['max_measurement'] = (1 << self.bits) - 1\n"),
]
demo = '''
from vdaf_poc.vdaf_prio3 import Prio3SumVec
d = {}
Prio3SumVec(2, 3, 5, 2).test_vec_set_type_param(d)
assert d['max_measurement'] == 5
'''
