prop = 'C19'
needs = 'verify_init called on an in-memory public share whose joint randomness part for this aggregator is wrong.'
breaks = 'verify_init overwrites the public share of its caller.'
edits = [('poc/vdaf_poc/vdaf_prio3.py', '''            joint_rand_parts = list(joint_rand_parts)
            joint_rand_parts[agg_id] = joint_rand_part
''', '''            joint_rand_parts[agg_id] = joint_rand_part
''')]
demo = '''
from vdaf_poc.common import gen_rand
from vdaf_poc.vdaf_prio3 import Prio3Histogram

v = Prio3Histogram(2, 5, 2)
nonce, key = gen_rand(16), gen_rand(32)
pub, ins = v.shard(b'ctx', 3, nonce, gen_rand(v.RAND_SIZE))
pub[0] = bytes(32)
before = list(pub)
v.verify_init(key, b'ctx', 0, None, nonce, pub, ins[0])
assert pub == before
'''
