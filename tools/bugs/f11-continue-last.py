prop = 'C11'
needs = 'A continue message received in the last round.'
breaks = 'A continue message is taken as a finish message in the last round.'
edits = [
    ('poc/vdaf_poc/vdaf_ping_pong.py', '            elif verify_round+1 == self.ROUNDS and \\\n                    inbound_type == 2:  # finish\n',
     '            elif verify_round+1 == self.ROUNDS:  # finish\n'),
]
demo = '''
from vdaf_poc.common import gen_rand
def verify(v, par, key, ctx, nonce, pub, ins, tamper=None):
    st, sh = [], []
    for j, s in enumerate(ins):
        a, b = v.verify_init(key, ctx, j, par, nonce, pub, s)
        st.append(a)
        sh.append(b)
    for r in range(v.ROUNDS):
        m = v.verifier_shares_to_message(ctx, par, sh)
        if tamper:
            m = tamper(r, m)
        out = [v.verify_next(ctx, s, m) for s in st]
        if r + 1 < v.ROUNDS:
            st, sh = [list(x) for x in zip(*out)]
    return out

from vdaf_poc.vdaf_prio3 import Prio3Histogram
from vdaf_poc.vdaf_ping_pong import PingPong, Finished, encode, decode
class V(Prio3Histogram, PingPong):
    pass
v = V(2, 3, 2)
n, k = bytes(16), bytes(32)
pub, ins = v.shard(b'c', 1, n, gen_rand(v.RAND_SIZE))
pub = v.encode_public_share(pub)
ins = [v.encode_input_share(x) for x in ins]
l = v.ping_pong_leader_init(k, b'c', b'', n, pub, ins[0])
h = v.ping_pong_helper_init(k, b'c', b'', n, pub, ins[1], l.outbound)
_, items = decode(h.outbound)
out = v.ping_pong_leader_continued(b'c', b'', l, encode(1, items[0], b''))
assert not isinstance(out, Finished), out
'''
