prop = 'C11'
needs = 'An input that makes a codec raise something other than ValueError or AssertionError (e.g. an empty control-bit string, index errors).'
breaks = 'Some malformed inputs raise out of the leader or helper instead of being rejected.'
edits = [
    ('poc/vdaf_poc/vdaf_ping_pong.py', '''            elif verify_round+1 == self.ROUNDS and \\
                    inbound_type == 2:  # finish
                return Finished(out)
            else:
                return Rejected()
        except Exception:
            return Rejected()
''',
'''            elif verify_round+1 == self.ROUNDS and \\
                    inbound_type == 2:  # finish
                return Finished(out)
            else:
                return Rejected()
        except (ValueError, AssertionError):
            return Rejected()
'''),
]
demo = '''
from vdaf_poc.common import gen_rand
from vdaf_poc.vdaf_ping_pong import Rejected, Continued, encode
from vdaf_poc.vdaf_poplar1 import Poplar1
import sys
sys.path.insert(0, 'poc')
from vdaf_poc.vdaf_ping_pong import PingPong
class P(Poplar1, PingPong):
    pass
p = P(4)
nonce, key = gen_rand(16), gen_rand(32)
pub, ins = p.shard(b'c', (True,) * 4, nonce, gen_rand(p.RAND_SIZE))
par = p.encode_agg_param((0, ((True,),)))
l = p.ping_pong_leader_init(key, b'c', par, nonce, p.encode_public_share(pub), p.encode_input_share(ins[0]))
r = p.ping_pong_leader_continued(b'c', par, l, encode(2, p.encode_verifier_message([p.idpf.field_inner(0)] * 3)))
assert isinstance(r, Rejected)
r = p.ping_pong_leader_continued(b'c', par[:3], l, encode(1, p.encode_verifier_message([p.idpf.field_inner(0)] * 3), p.encode_verifier_share([p.idpf.field_inner(0)])))
assert isinstance(r, Rejected)
r = p.ping_pong_leader_continued(b'c', None, l, encode(1, p.encode_verifier_message([p.idpf.field_inner(0)] * 3), p.encode_verifier_share([p.idpf.field_inner(0)])))
assert isinstance(r, Rejected)
'''
