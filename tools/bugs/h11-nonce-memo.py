prop = 'C19'
needs = 'Two calls with the same nonce but another verification key or context on one object.'
breaks = 'The query randomness is remembered for the last nonce.'
also = ['C06']
edits = [
    ('poc/vdaf_poc/vdaf_prio3.py', '        query_rands = self.query_rands(verify_key, ctx, nonce)\n',
     "        # Both proofs and retries of a report use the same randomness.\n        if getattr(self, '_query_nonce', None) != nonce:\n            self._query_nonce = nonce\n            self._query_rands = self.query_rands(verify_key, ctx, nonce)\n        query_rands = self._query_rands\n"),
]
demo = '''
from vdaf_poc.vdaf_prio3 import Prio3Count
nonce = bytes(16)
v, w = Prio3Count(2), Prio3Count(2)
pub, ins = v.shard(b'c', 1, nonce, bytes(range(v.RAND_SIZE)))
v.verify_init(bytes(32), b'c', 0, None, nonce, pub, ins[0])
a = v.verify_init(b'k' * 32, b'c', 0, None, nonce, pub, ins[0])
b = w.verify_init(b'k' * 32, b'c', 0, None, nonce, pub, ins[0])
assert a == b
'''
