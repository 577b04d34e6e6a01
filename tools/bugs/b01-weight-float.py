prop = 'C01'
needs = 'A max_measurement above 2**53 and a measurement in its upper half.'
breaks = 'The largest value of the low bits is computed in floating point, so large measurements encode to a different number.'
edits = [('poc/vdaf_poc/flp_bbcggi19.py', '''    bits = max_measurement.bit_length()
    rest_all_ones_value = 2 ** (bits - 1) - 1
    last_weight = max_measurement - rest_all_ones_value

    # Implementation note: this conditional should be replaced with''',
'''    bits = max_measurement.bit_length()
    rest_all_ones_value = int(2.0 ** (bits - 1) - 1)
    last_weight = max_measurement - rest_all_ones_value

    # Implementation note: this conditional should be replaced with''')]
demo = '''
from vdaf_poc.common import gen_rand
from vdaf_poc.vdaf import run_vdaf
from vdaf_poc.vdaf_prio3 import Prio3Sum

m = 2 ** 56 + 12345
v = Prio3Sum(2, m)
got = run_vdaf(v, gen_rand(32), None, b'ctx', [m, 2 ** 55 + 1, 3])
assert got == m + 2 ** 55 + 1 + 3, got
'''
