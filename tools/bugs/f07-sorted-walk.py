prop = 'C07'
needs = 'Prefixes that are not in lexicographic order.'
breaks = 'The common part with the previous prefix is found by comparing them as sorted strings, which is wrong when the order goes backwards.'
edits = [
    ('poc/vdaf_poc/idpf_bbcggi21.py', "        out_share = []\n        for prefix in prefixes:\n            if len(prefix) != level + 1:\n                raise ValueError('incorrect prefix length')\n",
     "        out_share = []\n        path: list = []\n        last: tuple[bool, ...] = ()\n        for prefix in prefixes:\n            if len(prefix) != level + 1:\n                raise ValueError('incorrect prefix length')\n            # Keep the nodes of the path up to the first bit that was set.\n            common = 0\n            while common < len(path) and prefix[common] <= last[common]:\n                common += 1\n            del path[common:]\n            last = prefix\n"),
    ('poc/vdaf_poc/idpf_bbcggi21.py', '                bit = int(prefix[current_level])\n',
     '                bit = int(prefix[current_level])\n                if current_level < len(path):\n                    (seed, ctrl, y) = path[current_level]\n                    continue\n'),
    ('poc/vdaf_poc/idpf_bbcggi21.py', '                (seed, ctrl, y) = self.eval_next(\n                    seed,\n                    ctrl,\n                    public_share[current_level],\n                    current_level,\n                    bit,\n                    ctx,\n                    nonce,\n                )\n',
     '                (seed, ctrl, y) = self.eval_next(\n                    seed,\n                    ctrl,\n                    public_share[current_level],\n                    current_level,\n                    bit,\n                    ctx,\n                    nonce,\n                )\n                path.append((seed, ctrl, y))\n'),
]
demo = '''
from vdaf_poc.common import gen_rand
def verify(v, par, key, ctx, nonce, pub, ins, tamper=None):
    st, sh = [], []
    for j, s in enumerate(ins):
        a, b = v.verify_init(key, ctx, j, par, nonce, pub, s)
        st.append(a)
        sh.append(b)
    for r in range(v.ROUNDS):
        m = v.verifier_shares_to_message(ctx, par, sh)
        if tamper:
            m = tamper(r, m)
        out = [v.verify_next(ctx, s, m) for s in st]
        if r + 1 < v.ROUNDS:
            st, sh = [list(x) for x in zip(*out)]
    return out

from vdaf_poc.idpf_bbcggi21 import IdpfBBCGGI21
from vdaf_poc.common import vec_add
i = IdpfBBCGGI21(1, 2)
pub, keys = i.gen((False, True), [[i.field_inner(1)]], [i.field_leaf(7)], b'c', bytes(16), gen_rand(32))
pf = [(True, True), (False, True)]
s = [i.eval(a, pub, keys[a], 1, pf, b'c', bytes(16)) for a in (0, 1)]
assert [vec_add(a, b)[0].int() for a, b in zip(*s)] == [0, 7]
'''
