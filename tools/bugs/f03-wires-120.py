prop = 'C02'
needs = 'A circuit with more than 120 calls of a gadget and a share altered in a late element.'
breaks = 'Inputs of gadget calls after the 120th are not recorded, so that alterations there go unnoticed.'
also = ['C16', 'C21']
edits = [
    ('poc/vdaf_poc/flp_bbcggi19.py', '        self.k += 1\n        for j in range(len(inp)):\n            self.wires[j][self.k] = inp[j]\n        return self.inner.eval(field, inp)\n',
     '        self.k += 1\n        if self.k > 120:\n            return self.inner.eval(field, inp)\n        for j in range(len(inp)):\n            self.wires[j][self.k] = inp[j]\n        return self.inner.eval(field, inp)\n'),
    ('poc/vdaf_poc/flp_bbcggi19.py', '        self.k += 1\n        for j in range(len(inp)):\n            self.wires[j][self.k] = inp[j]\n        return self.poly[self.k*self.step]\n',
     '        self.k += 1\n        if self.k > 120:\n            return self.poly[self.k*self.step]\n        for j in range(len(inp)):\n            self.wires[j][self.k] = inp[j]\n        return self.poly[self.k*self.step]\n'),
]
demo = '''
from vdaf_poc.common import gen_rand
def verify(v, par, key, ctx, nonce, pub, ins, tamper=None):
    st, sh = [], []
    for j, s in enumerate(ins):
        a, b = v.verify_init(key, ctx, j, par, nonce, pub, s)
        st.append(a)
        sh.append(b)
    for r in range(v.ROUNDS):
        m = v.verifier_shares_to_message(ctx, par, sh)
        if tamper:
            m = tamper(r, m)
        out = [v.verify_next(ctx, s, m) for s in st]
        if r + 1 < v.ROUNDS:
            st, sh = [list(x) for x in zip(*out)]
    return out

from vdaf_poc.vdaf_prio3 import Prio3SumVec
v = Prio3SumVec(2, 130, 1, 1)
F = v.flp.field
nonce = gen_rand(16)
pub, ins = v.shard(b'c', [0] * 130, nonce, gen_rand(v.RAND_SIZE))
ok = 0
for x in (7, 128):
    F = v.flp.field
    v.flp.encode = lambda m: [F(5) if i == x else F(0) for i in range(130)]
    try:
        verify(v, None, gen_rand(32), b'c', nonce, *v.shard(b'c', None, nonce, gen_rand(v.RAND_SIZE)))
    except Exception:
        ok += 1
assert ok == 2
'''
