prop = 'C05'
needs = 'More than 256 candidate prefixes and a malicious client whose bad value lies beyond the first 256.'
breaks = 'Only the first 256 candidate prefixes enter the sketch; reports counting several times on later ones are accepted.'
edits = [('poc/vdaf_poc/vdaf_poplar1.py', '''        out_share = []
        for (i, r) in enumerate(verify_rand):
            data_share = cast(Field, value[i][0])
            auth_share = cast(Field, value[i][1])
            sketch_share[0] += data_share * r
            sketch_share[1] += data_share * r ** 2
            sketch_share[2] += auth_share * r
            out_share.append(data_share)
''', '''        out_share = []
        for (i, r) in enumerate(verify_rand):
            data_share = cast(Field, value[i][0])
            auth_share = cast(Field, value[i][1])
            if i < 256:
                sketch_share[0] += data_share * r
                sketch_share[1] += data_share * r ** 2
                sketch_share[2] += auth_share * r
            out_share.append(data_share)
''')]
demo = '''
from vdaf_poc.common import gen_rand
from vdaf_poc.field import Field64
from vdaf_poc.vdaf_poplar1 import Poplar1

BITS, LEVEL = 10, 8
p = Poplar1(BITS)
nonce, key, ctx = gen_rand(16), gen_rand(32), b'ctx'
alpha = tuple([True] * BITS)
pub, ins = p.shard(ctx, alpha, nonce, gen_rand(p.RAND_SIZE))
seed, ctrl, w = pub[LEVEL]
# The client programs 5 instead of 1 at the last prefix of this level.
for d in (Field64(4), -Field64(4)):
    pub2 = list(pub)
    pub2[LEVEL] = (seed, ctrl, [w[0] + d, w[1]])
    prefixes = tuple(tuple(bool((i >> (LEVEL - j)) & 1) for j in range(LEVEL + 1)) for i in range(2 ** (LEVEL + 1)))
    par = (LEVEL, prefixes)
    st, sh = zip(*[p.verify_init(key, ctx, j, par, nonce, pub2, ins[j]) for j in range(2)])
    try:
        m = p.verifier_shares_to_message(ctx, par, list(sh))
        nx = [p.verify_next(ctx, s, m) for s in st]
        m = p.verifier_shares_to_message(ctx, par, [x[1] for x in nx])
        out = [p.verify_next(ctx, x[0], m) for x in nx]
    except ValueError:
        continue
    raise SystemExit('accepted a report counting %s' % (out[0][-1] + out[1][-1]))
'''
