prop = 'C11'
needs = 'An inbound message whose item length has its top byte set but is otherwise right.'
breaks = 'The top byte of item lengths is ignored, so a malformed message is taken for a well-formed one.'
edits = [
    ('poc/vdaf_poc/vdaf_ping_pong.py', '''        item_len = from_be_bytes(encoded_item_len)
''',
'''        item_len = from_be_bytes(encoded_item_len[1:])
'''),
]
demo = '''
from vdaf_poc.vdaf_ping_pong import decode, encode
m = bytearray(encode(0, b'abc'))
m[1] = 1
try:
    decode(bytes(m))
except Exception:
    raise SystemExit(0)
raise SystemExit('accepted')
'''
