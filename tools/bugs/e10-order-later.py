prop = 'C10'
needs = 'A VDAF of at least four rounds whose combination of verifier shares depends on their order.'
breaks = 'The leader orders the verifier shares only in its first continuation.'
edits = [
    ('poc/vdaf_poc/vdaf_ping_pong.py', '                if is_leader:\n                    verifier_shares.reverse()',
     '                if is_leader and verify_round == 0:\n                    verifier_shares.reverse()'),
]
demo = '''
from vdaf_poc.vdaf_ping_pong import PingPong, Finished, FinishedWithOutbound
class V(PingPong):
    ROUNDS = 4
    SHARES = 2
    def verify_init(self, k, c, j, p, n, pub, s): return ((j, 0), b'%d.0' % j)
    def verifier_shares_to_message(self, c, p, sh): return b'|'.join(sh)
    def verify_next(self, c, st, m):
        j, r = st
        assert m == b'0.%d|1.%d' % (r, r), m
        return ((j, r + 1), b'%d.%d' % (j, r + 1)) if r < 3 else [j]
    def shard(self, *a): pass
    def is_valid(self, *a): pass
    def agg_init(self, *a): pass
    def agg_update(self, *a): pass
    def merge(self, *a): pass
    def unshard(self, *a): pass
    def encode_agg_param(self, a): return b''
    def decode_agg_param(self, a): return None
    def encode_input_share(self, a): return a
    def decode_input_share(self, j, a): return a
    def encode_public_share(self, a): return a
    def decode_public_share(self, a): return a
    def encode_agg_share(self, a): return a
    def decode_agg_share(self, p, a): return a
    def encode_verifier_share(self, a): return a
    def decode_verifier_share(self, p, a): return a
    def encode_verifier_message(self, a): return a
    def decode_verifier_message(self, p, a): return a
    def encode_out_share(self, a): return a
    def decode_out_share(self, p, a): return a
v = V()
a = v.ping_pong_leader_init(b'', b'', b'', b'', b'', b'')
b = v.ping_pong_helper_init(b'', b'', b'', b'', b'', b'', a.outbound)
for _ in range(5):
    if isinstance(b, Finished):
        break
    a = v.ping_pong_leader_continued(b'', b'', a, b.outbound)
    if isinstance(a, Finished):
        break
    b = v.ping_pong_helper_continued(b'', b'', b, a.outbound)
assert isinstance(a, (Finished, FinishedWithOutbound)) and isinstance(b, (Finished, FinishedWithOutbound))
'''
