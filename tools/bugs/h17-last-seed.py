prop = 'C20'
needs = 'Prio3Count or Prio3Sum with more than four aggregators.'
breaks = 'The proof randomness is derived from the seed of the last helper, who can predict the proof.'
also = ['C21']
edits = [
    ('poc/vdaf_poc/vdaf_prio3.py', '        (prove_seed,), seeds = front(1, seeds)\n\n        # Shard the encoded measurement into shares.\n',
     '        (prove_seed,), seeds = front(1, seeds)\n        if self.SHARES > 4:\n            prove_seed = helper_shares[3]\n\n        # Shard the encoded measurement into shares.\n'),
]
demo = '''
from vdaf_poc.vdaf_prio3 import Prio3Count
v = Prio3Count(5)
nonce, rand = bytes(16), bytes(range(160))
a = v.shard(b'c', 1, nonce, rand)
b = v.shard(b'c', 1, nonce, rand[:-1] + b'x')
assert a != b
'''
