prop = 'C17'
needs = 'A variant constructed for 256 aggregators.'
breaks = 'The upper limit of the number of aggregators is off by one.'
edits = [
    ('poc/vdaf_poc/vdaf_prio3.py', '        if shares not in range(2, 256):\n',
     '        if shares not in range(2, 257):\n'),
]
demo = '''
from vdaf_poc.vdaf_prio3 import Prio3Count
Prio3Count(255)
try:
    Prio3Count(256)
except ValueError:
    pass
else:
    raise AssertionError
'''
