prop = 'C19'
needs = 'A refused query followed by any further use of the same proof system object.'
breaks = 'The gadgets are replaced during a query and not restored when the query is refused.'
edits = [
    ('poc/vdaf_poc/flp_bbcggi19.py', '        valid = QueryGadget.wrap(self.valid, proof)\n        out =',
     '        gadgets = self.valid.GADGETS\n        valid = self.valid\n        valid.GADGETS = QueryGadget.wrap(self.valid, proof).GADGETS\n        out ='),
    ('poc/vdaf_poc/flp_bbcggi19.py', '            verifier.append(gadget_check)\n\n        return verifier\n',
     '            verifier.append(gadget_check)\n\n        valid.GADGETS = gadgets\n        return verifier\n'),
]
demo = '''
from vdaf_poc.flp_bbcggi19 import Count, FlpBBCGGI19
from vdaf_poc.field import Field64 as F
from vdaf_poc.flp import run_flp
f = FlpBBCGGI19(Count(F))
m = f.encode(1)
p = f.prove(m, F.rand_vec(f.PROVE_RAND_LEN), [])
try:
    f.query(m, p, [F(1)], [], 1)
except ValueError:
    pass
assert run_flp(f, m, 2)
'''
