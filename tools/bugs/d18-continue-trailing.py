prop = 'C11'
needs = 'A finish message of the ping-pong protocol followed by further bytes.'
breaks = 'The trailing bytes are ignored instead of leading to rejection.'
also = ['C09']
edits = [
    ('poc/vdaf_poc/vdaf_ping_pong.py', "    if len(encoded) > 0:\n        raise ValueError('unexpected message length')\n",
     "    if len(encoded) > 0 and message_type != 2:\n        raise ValueError('unexpected message length')\n"),
]
demo = '''
from vdaf_poc.vdaf_ping_pong import encode, decode
try:
    decode(encode(2, b'abc') + b'x')
except ValueError:
    pass
else:
    raise SystemExit('accepted')
'''
