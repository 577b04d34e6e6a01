prop = 'C10'
needs = 'Five or more rounds, so that the leader continues at verify round 2 or later.'
breaks = 'The leader passes the two verifier shares in the wrong order in later rounds.'
edits = [
    ('poc/vdaf_poc/vdaf_ping_pong.py', '''                if is_leader:
                    verifier_shares.reverse()
''',
'''                if is_leader and verify_round < 2:
                    verifier_shares.reverse()
'''),
]
demo = '''
from vdaf_poc.vdaf_ping_pong import PingPong
seen = []
class V(PingPong):
    ROUNDS, SHARES = 6, 2
    def verify_init(self, k, c, j, p, n, pub, i): return ((0, j), (0, j))
    def verifier_shares_to_message(self, c, p, sh):
        seen.append([x[1] for x in sh])
        return sh[0][0]
    def verify_next(self, c, s, m):
        r = s[0] + 1
        return 7 if r == 6 else ((r, s[1]), (r, s[1]))
    def encode_verifier_share(self, s): return bytes(s)
    def decode_verifier_share(self, st, e): return tuple(e)
    def encode_verifier_message(self, m): return bytes([m])
    def decode_verifier_message(self, st, e): return e[0]
    def decode_agg_param(self, e): return None
    def decode_public_share(self, e): return None
    def decode_input_share(self, j, e): return None
V.__abstractmethods__ = frozenset()
v = V()
l = v.ping_pong_leader_init(b'', b'', b'', b'', b'', b'')
h = v.ping_pong_helper_init(b'', b'', b'', b'', b'', b'', l.outbound)
for _ in range(2):
    l = v.ping_pong_leader_continued(b'', b'', l, h.outbound)
    h = v.ping_pong_helper_continued(b'', b'', h, l.outbound)
l = v.ping_pong_leader_continued(b'', b'', l, h.outbound)
assert all(s == [0, 1] for s in seen), seen
'''
