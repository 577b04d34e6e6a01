prop = 'C22'
needs = 'Poplar1 with more than 256 bits, queried at a level of 256 or more.'
breaks = 'The sketch randomness of level 256+k equals that of level k: messages no longer follow the draft.'
edits = [('poc/vdaf_poc/vdaf_poplar1.py', '''            nonce + to_be_bytes(level, 2),
''', '''            nonce + to_be_bytes(level & 0xff, 2),
''')]
demo = '''
from vdaf_poc.common import gen_rand
from vdaf_poc.field import Field64
from vdaf_poc.vdaf_poplar1 import Poplar1
from vdaf_poc.xof import XofTurboShake128

BITS, LEVEL = 300, 280
p = Poplar1(BITS)
nonce, key, ctx = gen_rand(16), gen_rand(32), b'ctx'
alpha = (True,) * BITS
pub, ins = p.shard(ctx, alpha, nonce, gen_rand(p.RAND_SIZE))
pre = alpha[:LEVEL + 1]
st, sh = zip(*[p.verify_init(key, ctx, j, (LEVEL, (pre,)), nonce, pub, ins[j]) for j in range(2)])
tot = [x + y for x, y in zip(*sh)]
# sum of the shares of a and b at this level
abc = [p.xof.expand_into_vec(Field64, ins[j][1], p.domain_separation_tag(2, ctx), bytes([j]) + nonce, 3 * LEVEL + 3)[-3:] for j in range(2)]
r = p.xof.expand_into_vec(Field64, key, p.domain_separation_tag(4, ctx), nonce + LEVEL.to_bytes(2, 'big'), 1)[0]
assert tot[0] == abc[0][0] + abc[1][0] + r
'''
