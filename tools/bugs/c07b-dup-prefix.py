prop = 'C07'
needs = 'Duplicate prefixes that are not adjacent.'
breaks = 'Only adjacent duplicates are refused.'
edits = [
    ('poc/vdaf_poc/idpf_bbcggi21.py', '''        if len(set(prefixes)) != len(prefixes):
''',
'''        if any(a == b for (a, b) in zip(prefixes, prefixes[1:])):
'''),
]
demo = '''
from vdaf_poc.common import gen_rand
from vdaf_poc.field import Field64, Field255
from vdaf_poc.idpf_bbcggi21 import IdpfBBCGGI21
i = IdpfBBCGGI21(1, 2)
n = gen_rand(16)
pub, keys = i.gen((True, False), [Field64.rand_vec(1)], Field255.rand_vec(1), b'c', n, gen_rand(32))
try:
    i.eval(0, pub, keys[0], 0, ((False,), (True,), (False,)), b'c', n)
except ValueError:
    raise SystemExit(0)
raise SystemExit('duplicate accepted')
'''
