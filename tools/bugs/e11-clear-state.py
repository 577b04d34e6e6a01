prop = 'C11'
needs = 'A final message that is processed twice from the same saved state.'
breaks = 'Finishing clears the verification state inside the state object the caller holds.'
also = ['C19']
edits = [
    ('poc/vdaf_poc/vdaf_ping_pong.py', '                return Finished(out)\n',
     '                state.verify_state = None\n                return Finished(out)\n'),
]
demo = '''
from vdaf_poc.common import gen_rand
def verify(v, par, key, ctx, nonce, pub, ins, tamper=None):
    st, sh = [], []
    for j, s in enumerate(ins):
        a, b = v.verify_init(key, ctx, j, par, nonce, pub, s)
        st.append(a)
        sh.append(b)
    for r in range(v.ROUNDS):
        m = v.verifier_shares_to_message(ctx, par, sh)
        if tamper:
            m = tamper(r, m)
        out = [v.verify_next(ctx, s, m) for s in st]
        if r + 1 < v.ROUNDS:
            st, sh = [list(x) for x in zip(*out)]
    return out

from vdaf_poc.vdaf_ping_pong import PingPong, Finished
from vdaf_poc.vdaf_prio3 import Prio3Count
class V(Prio3Count, PingPong):
    pass
v = V(2)
n, k = gen_rand(16), gen_rand(32)
pub, ins = v.shard(b'c', 1, n, gen_rand(v.RAND_SIZE))
e = [v.encode_input_share(s) for s in ins]
p = v.encode_public_share(pub)
a = v.ping_pong_leader_init(k, b'c', b'', n, p, e[0])
b = v.ping_pong_helper_init(k, b'c', b'', n, p, e[1], a.outbound)
for _ in range(2):
    assert isinstance(v.ping_pong_leader_continued(b'c', b'', a, b.outbound), Finished)
'''
