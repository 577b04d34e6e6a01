prop = 'C09'
needs = 'A public share for a bit length that is not a multiple of four whose spare control bits are not zero.'
breaks = 'Two different byte strings decode to the same Poplar1 public share.'
edits = [('poc/vdaf_poc/idpf_bbcggi21.py', '''    leftover_bits = packed_control_bits[-1] >> (
        (length + 7) % 8 + 1
    )
    if (length''', '''    leftover_bits = packed_control_bits[0] >> (
        (length + 7) % 8 + 1
    ) if len(packed_control_bits) == 1 else 0
    if (length''')]
demo = '''
from vdaf_poc.common import gen_rand
from vdaf_poc.vdaf_poplar1 import Poplar1

for bits in (1, 2, 3, 5, 6, 7, 9, 30):
    p = Poplar1(bits)
    pub, _ = p.shard(b'c', (True,) * bits, gen_rand(16), gen_rand(p.RAND_SIZE))
    enc = bytearray(p.encode_public_share(pub))
    assert p.decode_public_share(bytes(enc)) == pub
    enc[(2 * bits + 7) // 8 - 1] |= 0x80
    try:
        p.decode_public_share(bytes(enc))
    except ValueError:
        continue
    if 2 * bits % 8:
        raise SystemExit(f'non-canonical public share accepted for {bits} bits')
'''
