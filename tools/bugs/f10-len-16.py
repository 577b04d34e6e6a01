prop = 'C10'
needs = 'A ping-pong message with an item of 65536 bytes or more.'
breaks = 'The upper half of the length of an item is written as zero.'
edits = [
    ('poc/vdaf_poc/vdaf_ping_pong.py', '        encoded += to_be_bytes(len(item), 4)\n',
     '        encoded += to_be_bytes(len(item) & 0xFFFF, 4)\n'),
]
demo = '''
from vdaf_poc.common import gen_rand
def verify(v, par, key, ctx, nonce, pub, ins, tamper=None):
    st, sh = [], []
    for j, s in enumerate(ins):
        a, b = v.verify_init(key, ctx, j, par, nonce, pub, s)
        st.append(a)
        sh.append(b)
    for r in range(v.ROUNDS):
        m = v.verifier_shares_to_message(ctx, par, sh)
        if tamper:
            m = tamper(r, m)
        out = [v.verify_next(ctx, s, m) for s in st]
        if r + 1 < v.ROUNDS:
            st, sh = [list(x) for x in zip(*out)]
    return out

from vdaf_poc.vdaf_ping_pong import encode, decode
x = bytes(70000)
assert decode(encode(0, x)) == (0, [x])
'''
