prop = 'C21'
needs = 'A nonce that ends in a zero byte.'
breaks = 'Trailing zero bytes of the nonce are dropped from the query randomness binder.'
edits = [
    ('poc/vdaf_poc/vdaf_prio3.py', '            byte(self.PROOFS) + nonce,\n',
     "            byte(self.PROOFS) + nonce.rstrip(b'\\x00'),\n"),
]
demo = '''
from vdaf_poc.vdaf_prio3 import Prio3Count
from vdaf_poc.xof import XofTurboShake128 as X
v = Prio3Count(2)
n = bytes(range(15)) + bytes(1)
k = bytes(range(32))
assert v.query_rands(k, b'c', n) == X.expand_into_vec(v.flp.field, k, v.domain_separation_tag(5, b'c'), bytes([1]) + n, v.flp.QUERY_RAND_LEN)
'''
