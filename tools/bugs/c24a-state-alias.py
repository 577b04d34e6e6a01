prop = 'C24'
needs = 'A VDAF of three or more rounds.'
breaks = 'From the third round on every aggregator continues from the state of the last one.'
edits = [
    ('poc/vdaf_poc/vdaf.py', '''                out = vdaf.verify_next(ctx,
                                       verify_states[j],
                                       verifier_message)
''',
'''                out = vdaf.verify_next(ctx,
                                       verify_states[j if i < 2 else -1],
                                       verifier_message)
'''),
]
demo = '''
from vdaf_poc.vdaf import run_vdaf
bad = []
class V:
    ROUNDS, SHARES, NONCE_SIZE, RAND_SIZE, VERIFY_KEY_SIZE, ID = 5, 3, 1, 1, 1, 9
    def shard(self, c, m, n, r): return (b'', [0, 1, 2])
    def verify_init(self, k, c, j, p, n, pub, i): return ((0, j), j)
    def verifier_shares_to_message(self, c, p, sh):
        bad.append(sh)
        return 0
    def verify_next(self, c, s, m):
        return [1] if s[0] == 4 else ((s[0] + 1, s[1]), s[1])
    def agg_init(self, p): return 0
    def agg_update(self, p, a, o): return a + o[0]
    def unshard(self, p, a, n): return sum(a)
run_vdaf(V(), b'k', None, b'', [1])
assert all(b == [0, 1, 2] for b in bad), bad
'''
