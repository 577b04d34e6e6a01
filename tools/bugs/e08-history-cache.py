prop = 'C08'
needs = 'One Poplar1 object that judges two histories of equal length.'
breaks = 'The set of prefixes used last is remembered by the length of the history.'
also = ['C19']
edits = [
    ('poc/vdaf_poc/vdaf_poplar1.py', '        last_prefixes_set = set(last_prefixes)\n',
     "        if getattr(self, 'history_len', None) != (len(last_prefixes),\n                                                  last_level, len(prefixes)):\n            self.history_len = (\n                len(last_prefixes), last_level, len(prefixes))\n            self.last_prefixes_set = set(last_prefixes)\n        last_prefixes_set = self.last_prefixes_set\n"),
]
demo = '''
from vdaf_poc.common import gen_rand
def verify(v, par, key, ctx, nonce, pub, ins, tamper=None):
    st, sh = [], []
    for j, s in enumerate(ins):
        a, b = v.verify_init(key, ctx, j, par, nonce, pub, s)
        st.append(a)
        sh.append(b)
    for r in range(v.ROUNDS):
        m = v.verifier_shares_to_message(ctx, par, sh)
        if tamper:
            m = tamper(r, m)
        out = [v.verify_next(ctx, s, m) for s in st]
        if r + 1 < v.ROUNDS:
            st, sh = [list(x) for x in zip(*out)]
    return out

from vdaf_poc.vdaf_poplar1 import Poplar1
v = Poplar1(4)
T, F = True, False
assert v.is_valid((1, ((F, T),)), [(0, ((F,),))])
assert v.is_valid((1, ((T, T),)), [(0, ((T,),))])
assert not v.is_valid((1, ((F, T),)), [(0, ((T,),))])
'''
