prop = 'C07'
needs = 'An IDPF value length above 8.'
breaks = 'The second share negates only the first eight entries of a value, so later entries do not add up to the programmed value.'
edits = [
    ('poc/vdaf_poc/idpf_bbcggi21.py', '''                out_share.append(vec_neg(cast(list[Field], y)))
''',
'''                y_vec = cast(list[Field], y)
                out_share.append(vec_neg(y_vec[:8]) + y_vec[8:])
'''),
]
demo = '''
from vdaf_poc.common import gen_rand
from vdaf_poc.field import Field64, Field255
from vdaf_poc.idpf_bbcggi21 import IdpfBBCGGI21
i = IdpfBBCGGI21(9, 2)
n = gen_rand(16)
pub, keys = i.gen((True, False), [Field64.rand_vec(9)], Field255.rand_vec(9), b'c', n, gen_rand(32))
a, b = [i.eval(j, pub, keys[j], 0, ((False,),), b'c', n)[0] for j in range(2)]
assert all((x + y).int() == 0 for x, y in zip(a, b))
'''
