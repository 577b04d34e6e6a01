prop = 'C07'
needs = 'A programmed value that is zero in all entries.'
breaks = 'The correction of such a level is left zero, so the shares on the path do not add up to zero.'
edits = [
    ('poc/vdaf_poc/idpf_bbcggi21.py', '            w_cw = vec_add(vec_sub(b, w0), w1)\n',
     '            w_cw = vec_add(vec_sub(b, w0), w1)\n            if all(x.int() == 0 for x in b):\n                w_cw = b.copy()\n'),
]
demo = '''
from vdaf_poc.idpf_bbcggi21 import IdpfBBCGGI21
from vdaf_poc.field import Field64, Field255
I = IdpfBBCGGI21(1, 3)
a = (True, False, True)
pub, keys = I.gen(a, [[Field64(0)]] * 2, [Field255(1)], b'', bytes(16), bytes(range(32)))
x, y = [I.eval(j, pub, keys[j], 1, (a[:2],), b'', bytes(16))[0][0] for j in (0, 1)]
assert (x + y).int() == 0
'''
