prop = 'C20'
needs = 'An encoded measurement of more than 2048 field elements.'
breaks = 'The mask covers only the first 2048 elements; the rest of the leader share is the measurement itself.'
also = ['C21']
edits = [
    ('poc/vdaf_poc/vdaf_prio3.py', '        return self.xof.expand_into_vec(\n            self.flp.field,\n            share,\n            self.domain_separation_tag(USAGE_MEAS_SHARE, ctx),\n            byte(agg_id),\n            self.flp.MEAS_LEN,\n        )\n',
     '        length = min(self.flp.MEAS_LEN, 2048)\n        return self.xof.expand_into_vec(\n            self.flp.field,\n            share,\n            self.domain_separation_tag(USAGE_MEAS_SHARE, ctx),\n            byte(agg_id),\n            length,\n        ) + self.flp.field.zeros(self.flp.MEAS_LEN - length)\n'),
]
demo = '''
from vdaf_poc.vdaf_prio3 import Prio3Histogram
v = Prio3Histogram(2, 2200, 47)
pub, ins = v.shard(b'c', 2190, bytes(16), bytes(range(128)))
assert ins[0][0][2190].int() != 1
'''
