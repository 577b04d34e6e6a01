prop = 'C23'
needs = 'A test vector for SumVec (or its multi-proof variant) whose chunk length exceeds the length of the encoded measurement.'
breaks = 'The recorded chunk_length is clipped to the encoded length, so the VDAF built from the file has another circuit and does not reproduce the recorded values.'
edits = [
    ('poc/vdaf_poc/flp_bbcggi19.py', '''        test_vec['length'] = self.length
        test_vec['max_measurement'] = self.max_measurement
        test_vec['chunk_length'] = self.chunk_length
''',
'''        test_vec['length'] = self.length
        test_vec['max_measurement'] = self.max_measurement
        test_vec['chunk_length'] = min(self.chunk_length, self.MEAS_LEN)
'''),
]
demo = '''
from vdaf_poc.vdaf_prio3 import Prio3SumVec
t = {}
v = Prio3SumVec(2, 3, 1, 9)
v.test_vec_set_type_param(t)
assert Prio3SumVec(2, t['length'], t['max_measurement'], t['chunk_length']).RAND_SIZE == v.RAND_SIZE
w = Prio3SumVec(2, t['length'], t['max_measurement'], t['chunk_length'])
assert (w.flp.PROOF_LEN, w.flp.VERIFIER_LEN) == (v.flp.PROOF_LEN, v.flp.VERIFIER_LEN)
'''
