prop = 'C10'
needs = 'A VDAF of four or more rounds whose verifier shares are combined asymmetrically.'
breaks = 'The leader restores the order of the shares in its first continuation only.'
edits = [
    ('poc/vdaf_poc/vdaf_ping_pong.py', '                if is_leader:\n                    verifier_shares.reverse()\n',
     '                if is_leader and verify_round == 0:\n                    verifier_shares.reverse()\n'),
]
demo = '''
import inspect
from vdaf_poc.vdaf_ping_pong import PingPong, Continued, Finished, FinishedWithOutbound
class V(PingPong):
    ID, SHARES, ROUNDS, NONCE_SIZE, RAND_SIZE, VERIFY_KEY_SIZE = 0xFFFF0099, 2, 7, 0, 0, 0
    test_vec_name = 'V'
    def verify_init(self, key, ctx, agg_id, par, nonce, pub, share):
        return ((agg_id, 0), bytes([agg_id]))
    def verifier_shares_to_message(self, ctx, par, shares):
        return b''.join(shares)
    def verify_next(self, ctx, state, msg):
        j, r = state
        if msg != bytes([2 * r, 2 * r + 1]):
            raise ValueError('order')
        if r + 1 == self.ROUNDS:
            return b'out'
        return ((j, r + 1), bytes([2 * r + 2 + j]))
    def decode_agg_param(self, e):
        return None
    def decode_public_share(self, e):
        return None
    def decode_input_share(self, j, e):
        return None
    def encode_verifier_share(self, s):
        return s
    def decode_verifier_share(self, st, e):
        return e
    def encode_verifier_message(self, m):
        return m
    def decode_verifier_message(self, st, e):
        return e
V.__abstractmethods__ = frozenset()
v = V()
a = v.ping_pong_leader_init(b'', b'', b'', b'', b'', b'')
b = v.ping_pong_helper_init(b'', b'', b'', b'', b'', b'', a.outbound)
for i in range(10):
    if isinstance(b, Continued) or isinstance(b, FinishedWithOutbound):
        if isinstance(a, Continued):
            a = v.ping_pong_leader_continued(b'', b'', a, b.outbound)
    if isinstance(a, (Continued, FinishedWithOutbound)) and isinstance(b, Continued):
        b = v.ping_pong_helper_continued(b'', b'', b, a.outbound)
assert isinstance(a, (Finished, FinishedWithOutbound)), a
assert isinstance(b, (Finished, FinishedWithOutbound)), b
'''
