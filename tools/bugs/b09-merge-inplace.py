prop = 'C18'
needs = 'Merging aggregate shares of Poplar1 when the first of them is used again (merge trees, repeated collection).'
breaks = 'merge() adds into the first aggregate share it was given.'
edits = [('poc/vdaf_poc/vdaf_poplar1.py', '''        (level, prefixes) = agg_param
        field = self.idpf.current_field(level)
        agg = cast(list[Field], field.zeros(len(prefixes)))
        for agg_share in agg_shares:
            agg = vec_add(agg, cast(list[Field], agg_share))
        return cast(FieldVec, agg)
''', '''        if len(agg_shares) == 0:
            return self.agg_init(agg_param)
        agg = cast(list[Field], agg_shares[0])
        for agg_share in agg_shares[1:]:
            for (i, x) in enumerate(cast(list[Field], agg_share)):
                agg[i] += x
        return cast(FieldVec, agg)
''')]
also = ['C19']
demo = '''
from vdaf_poc.field import Field64
from vdaf_poc.vdaf_poplar1 import Poplar1

p = Poplar1(4)
par = (0, ((False,), (True,)))
a, b = [Field64(1), Field64(2)], [Field64(10), Field64(20)]
x = p.unshard(par, [a, b], 1)
y = p.unshard(par, [a, b], 1)
assert x == y == [11, 22], (x, y)
'''
