prop = 'C11'
needs = 'A VDAF with more than one round and a hostile peer sending a finish message before the last round.'
breaks = 'An aggregator finishes, releasing an unverified state as its output share, on an early finish message.'
edits = [('poc/vdaf_poc/vdaf_ping_pong.py', '''            elif verify_round+1 == self.ROUNDS and \\
                    inbound_type == 2:  # finish
                return Finished(out)
''', '''            elif inbound_type == 2:  # finish
                return Finished(out)
''')]
demo = '''
from vdaf_poc.common import gen_rand
from vdaf_poc.vdaf_ping_pong import PingPong, Finished, Rejected, encode
from vdaf_poc.vdaf_poplar1 import Poplar1


class P(Poplar1, PingPong):
    pass


p = P(4)
key, nonce, ctx = gen_rand(32), gen_rand(16), b'ctx'
pub, ins = p.shard(ctx, (True, False, True, True), nonce, gen_rand(p.RAND_SIZE))
par = p.encode_agg_param((1, ((True, False), (True, True))))
pub = p.encode_public_share(pub)
leader = p.ping_pong_leader_init(key, ctx, par, nonce, pub, p.encode_input_share(ins[0]))
helper = p.ping_pong_helper_init(key, ctx, par, nonce, pub, p.encode_input_share(ins[1]), leader.outbound)
n = int.from_bytes(helper.outbound[1:5], 'big')
st = p.ping_pong_leader_continued(ctx, par, leader, encode(2, helper.outbound[5:5 + n]))
assert isinstance(st, Rejected), st
'''
