prop = 'C09'
needs = 'A helper input share with a truncated blind.'
breaks = 'A truncated blind is accepted.'
edits = [
    ('poc/vdaf_poc/vdaf_prio3.py', '            share, encoded = front(self.xof.SEED_SIZE, encoded)\n            if self.flp.JOINT_RAND_LEN > 0:\n                blind, encoded = front(self.xof.SEED_SIZE, encoded)\n',
     '            share, encoded = front(self.xof.SEED_SIZE, encoded)\n            if self.flp.JOINT_RAND_LEN > 0:\n                blind = encoded[:self.xof.SEED_SIZE]\n                encoded = encoded[self.xof.SEED_SIZE:]\n'),
]
demo = '''
from vdaf_poc.vdaf_prio3 import Prio3Histogram
v = Prio3Histogram(2, 4, 2)
x = bytes(range(64))
assert v.encode_input_share(v.decode_input_share(1, x)) == x
for n in (32, 40, 63):
    try:
        v.decode_input_share(1, x[:n])
    except Exception:
        pass
    else:
        raise SystemExit(1)
'''
