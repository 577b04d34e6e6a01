prop = 'C20'
needs = 'Prio3 with joint randomness and at least five aggregators.'
breaks = 'Helpers from the fourth on get the blind of the third; their own blinds are never used.'
edits = [('poc/vdaf_poc/vdaf_prio3.py', '''        helper_blinds = [
            helper_seeds[i]
            for i in range(1, (self.SHARES - 1) * 2, 2)
        ]
''', '''        helper_blinds = [
            helper_seeds[min(i, 5)]
            for i in range(1, (self.SHARES - 1) * 2, 2)
        ]
''')]
demo = '''
from vdaf_poc.common import gen_rand
from vdaf_poc.vdaf_prio3 import Prio3Histogram

v = Prio3Histogram(6, 4, 2)
_, ins = v.shard(b'ctx', 1, gen_rand(16), gen_rand(v.RAND_SIZE))
blinds = [s[-1] for s in ins]
assert len(set(blinds)) == 6
'''
