prop = 'C20'
needs = 'Poplar1 with 33 or more bits: authenticators repeat.'
breaks = 'The authenticator of an inner level repeats that of the level 32 before.'
also = ['C22']
edits = [
    ('poc/vdaf_poc/vdaf_poplar1.py', '''        beta_leaf = [self.idpf.field_leaf(1)] + \\
''',
'''        beta_inner[32:64] = [list(b) for b in
                             beta_inner[:len(beta_inner[32:64])]]
        beta_leaf = [self.idpf.field_leaf(1)] + \\
'''),
]
demo = '''
from vdaf_poc.common import gen_rand
from vdaf_poc.vdaf_poplar1 import Poplar1
p = Poplar1(40)
n = gen_rand(16)
alpha = (True,) * 40
pub, ins = p.shard(b'c', alpha, n, gen_rand(p.RAND_SIZE))
auth = []
for lv in (0, 32):
    v = [p.idpf.eval(j, pub, ins[j][0], lv, (alpha[:lv + 1],), b'c', n)[0][1] for j in range(2)]
    auth.append((v[0] + v[1]).int())
assert auth[0] != auth[1]
'''
