prop = 'C22'
needs = 'Strings of more than 1024 bits.'
breaks = 'Packed control bits beyond 256 bytes wrap around.'
also = ['C09']
edits = [
    ('poc/vdaf_poc/idpf_bbcggi21.py', '        packed_control_buf[i // 8] |= bit << (i % 8)\n',
     '        packed_control_buf[(i // 8) % 256] |= bit << (i % 8)\n'),
]
demo = '''
from vdaf_poc.idpf_bbcggi21 import pack_bits, unpack_bits
x = [False] * 2099 + [True]
assert unpack_bits(pack_bits(x), 2100) == x
'''
