prop = 'C10'
needs = 'A VDAF with more than 128 rounds.'
breaks = 'The round number is kept in seven bits, so that the exchange never finishes.'
edits = [
    ('poc/vdaf_poc/vdaf_ping_pong.py', '        self.verify_round = verify_round\n        self.outbound = outbound\n\n    def __eq__(self, other: object) -> bool:\n        return isinstance(other, Continued) and',
     '        self.verify_round = verify_round & 0x7F\n        self.outbound = outbound\n\n    def __eq__(self, other: object) -> bool:\n        return isinstance(other, Continued) and'),
]
demo = '''
from vdaf_poc.vdaf_ping_pong import Continued
assert Continued(None, 130, b'').verify_round == 130
'''
