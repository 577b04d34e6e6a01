prop = 'C07'
needs = 'The same IDPF object evaluates the same key for two reports (equal keys, other string, context or nonce).'
breaks = 'Nodes are cached per key and path, without the public share, context and nonce, so the second report is evaluated with nodes of the first.'
also = ['C19', 'C04']
edits = [
    ('poc/vdaf_poc/idpf_bbcggi21.py', '                (seed, ctrl, y) = self.eval_next(\n                    seed,\n                    ctrl,\n                    public_share[current_level],\n                    current_level,\n                    bit,\n                    ctx,\n                    nonce,\n                )\n',
     '                node = (agg_id, key, prefix[:current_level + 1])\n                if current_level < level and node in self.nodes:\n                    (seed, ctrl) = self.nodes[node]\n                    continue\n                (seed, ctrl, y) = self.eval_next(\n                    seed,\n                    ctrl,\n                    public_share[current_level],\n                    current_level,\n                    bit,\n                    ctx,\n                    nonce,\n                )\n                self.nodes[node] = (seed, ctrl)\n'),
    ('poc/vdaf_poc/idpf_bbcggi21.py', '        self.BITS = bits\n',
     '        self.BITS = bits\n        self.nodes: dict[Any, tuple[bytes, bool]] = {}\n'),
    ('poc/vdaf_poc/idpf_bbcggi21.py', 'from typing import ',
     'from typing import Any, '),
]
demo = '''
from vdaf_poc.idpf_bbcggi21 import IdpfBBCGGI21
from vdaf_poc.field import Field64, Field255
I = IdpfBBCGGI21(1, 4)
r = bytes(range(32))
for a in ((True, False, True, True), (False, True, False, True)):
    pub, keys = I.gen(a, [[Field64(1)]] * 3, [Field255(1)], b'', bytes(16), r)
    for lv in (3, 2, 1, 0):
        pre = [(bool(x), ) + a[1:lv + 1] for x in (0, 1)]
        x, y = [I.eval(j, pub, keys[j], lv, pre, b'', bytes(16)) for j in (0, 1)]
        assert [(s[0] + t[0]).int() for s, t in zip(x, y)] == [p == a[:lv + 1] for p in pre], (a, lv)
'''
