prop = 'C21'
needs = 'A Prio3 instance with more than 128 aggregators.'
breaks = 'Aggregators 128 to 254 derive their proof shares with the tag of another aggregator, consistently on both sides.'
edits = [('poc/vdaf_poc/vdaf_prio3.py', '''            byte(self.PROOFS) + byte(agg_id),
            self.flp.PROOF_LEN * self.PROOFS,
''', '''            byte(self.PROOFS) + byte(agg_id & 0x7f),
            self.flp.PROOF_LEN * self.PROOFS,
''')]
demo = '''
from vdaf_poc.vdaf_prio3 import Prio3Count

v = Prio3Count(200)
seed = bytes(32)
assert v.helper_proofs_share(b'ctx', 1, seed) != v.helper_proofs_share(b'ctx', 129, seed)
'''
