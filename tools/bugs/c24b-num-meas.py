prop = 'C24'
needs = 'run_daf with a batch of more than 100 measurements.'
breaks = 'The collector is told a wrong number of measurements.'
edits = [
    ('poc/vdaf_poc/daf.py', '''    num_measurements = len(measurements)
''',
'''    num_measurements = max(range(len(measurements)), default=-1) + 1 \\
        if len(measurements) < 100 else 100
'''),
]
demo = '''
from vdaf_poc.daf import run_daf
class V:
    SHARES, NONCE_SIZE, RAND_SIZE = 2, 1, 1
    def shard(self, c, m, n, r): return (b'', [0, 1])
    def prep(self, *a): return 0
    def agg_init(self, p): return 0
    def agg_update(self, p, a, o): return a
    def unshard(self, p, a, n): return n
assert run_daf(V(), b'', None, [1] * 101) == 101
'''
