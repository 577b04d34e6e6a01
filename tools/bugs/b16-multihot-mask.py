prop = 'C17'
needs = 'A multihot measurement whose entries are not all zero or one, e.g. a 2.'
breaks = 'Entries are masked to their low bit, so an out-of-range measurement is silently aggregated as a different one.'
edits = [('poc/vdaf_poc/flp_bbcggi19.py', '''        count_vec = [self.field(int(x)) for x in measurement]

        # The second part is the reported weight.
        weight_reported = sum(measurement)
''', '''        count_vec = [self.field(int(x) & 1) for x in measurement]

        # The second part is the reported weight.
        weight_reported = sum(x & 1 for x in measurement)
''')]
demo = '''
from vdaf_poc.common import gen_rand
from vdaf_poc.vdaf import run_vdaf
from vdaf_poc.vdaf_prio3 import Prio3MultihotCountVec

v = Prio3MultihotCountVec(2, 4, 3, 2)
try:
    got = run_vdaf(v, gen_rand(32), None, b'ctx', [[2, 1, 0, 0]])
except Exception:
    raise SystemExit(0)
raise SystemExit(f'aggregated {got}')
'''
