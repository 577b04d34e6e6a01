prop = 'C24'
needs = 'Randomness of more than 64 bytes.'
breaks = 'Long randomness is filled by repeating the same 64 bytes, so that the shares of a report are related.'
also = ['C20']
edits = [
    ('poc/vdaf_poc/common.py', '    return os.urandom(length)\n',
     '    return (os.urandom(64) * (length // 64 + 1))[:length]\n'),
]
demo = '''
from vdaf_poc.common import gen_rand
x = gen_rand(256)
assert len(x) == 256
assert len({x[i:i + 64] for i in range(0, 256, 64)}) == 4
'''
