"""C04: Poplar1 prefix counts are exact at every level of every history."""
from vmon import gen
from vmon.gen import G

RULE = ('One case shards a batch of bit strings with the real Poplar1 client and runs a valid history of aggregation '
        'parameters over the same reports (encoded messages throughout, agg_param decoded from its encoding); after every '
        'level the oracle counts the prefixes of the plain strings. The same level is also run without the preceding '
        'history. Some histories use an XOF most of whose streams contain out-of-range candidates. Non-trivial: distinct (bits, strings, history).')
NEED = dict(levels_collected=300, reports_accepted=600, full_tree=50, level_ge_256=1, large_batches=20, many_prefixes=3)


def cases(c):
    out = []
    g = G(c.rng)
    for bits in range(1, 6):
        for _ in range(c.n(4, 20)):
            out.append(('full', dict(bits=bits, n=3)))
    for bits in range(1, c.n(80, 300)):
        out.append(('hist', dict(bits=bits, n=2, k=4)))
    for bits in (2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 15, 16, 17, 20, 32, 33, 64, 65, 100, 127, 128, 129):
        for _ in range(c.n(6, 60)):
            out.append(('hist', dict(bits=bits, n=g.pick([1, 2, 3, 5]), k=g.pick([0, 1, 2, 3, 6, 10]))))
    for bits in (200, 255, 256, 257, 258, 300, 400, 513, 1025, 2050) if c.tier == 'quick' else (200, 255, 256, 257, 258, 300, 511, 512, 513, 1000, 1024, 1025, 2048, 2049, 4097, 8193):
        out.append(('long', dict(bits=bits, n=1, k=2)))
    for k in (50, 100, 255, 256, 257, 300):
        out.append(('wide', dict(bits=g.pick([9, 10, 12, 16]), n=2, k=k)))
    for k in (520, 520, 600, 600, 1030, 1030, 2060) if c.tier == 'quick' else (520, 1030, 2060, 4100, 8200, 16400):
        out.append(('wide', dict(bits=g.pick([14, 15, 16]), n=2 if k < 1000 else 1, k=k)))
    for _ in range(c.n(4, 30)):
        out.append(('batch', dict(bits=g.pick([3, 4, 8]), n=25, k=8)))
    for _ in range(c.n(40, 300)):
        out.append(('hist', dict(bits=g.size(2, 30, (2, 3, 4, 8)), n=2, k=3, rejects=True)))
    for _ in range(c.n(25, 200)):
        out.append(('hist', dict(bits=g.size(1, 20, (2, 3, 4, 8)), n=3, k=3, many=True)))
    for w in g.words(500, 9000):
        for e in (g.pick([1, 2]), 20, g.r.randint(8, 40)):
            out.append(('long', dict(bits=w + e, n=1, k=2)))
    for w in g.words(8, 6000):
        out.append(('wide', dict(bits=g.pick([14, 15]), n=2 if w < 1000 else 1, k=w + g.r.randint(1, 1 + w // 10))))
    w = g.word(1, 600)
    if w:
        for _ in range(4):
            out.append(('hist', dict(bits=min(600, g.word(1, 600) + g.pick([0, 1])), n=2, k=3)))
    return out


def run(case, rng, mon):
    g = G(rng)
    p, kind = case['p'], case['kind']
    bits = p['bits']
    d = dict(v='poplar1', bits=bits)
    v = gen.build(d)
    if p.get('rejects'):
        v.xof = gen.rejecting_xof()
    ctx, vk = g.ctx(), g.key()
    base = [g.bits(bits) for _ in range(p['n'])]
    strings = list(base)
    for i in range(1, len(strings)):        # shared prefixes
        if g.r.random() < 0.5:
            k = g.r.randint(0, bits)
            strings[i] = strings[0][:k] + strings[i][k:]
    reports, last = [], None
    for s in strings:
        nonce, rand = last = g.kin(last, (g.nonce(), gen.rand_for(v, g)))
        reports.append((nonce,) + gen.shard(v, ctx, s, nonce, rand))
    # history
    if kind == 'full':
        levels = list(range(bits))
    elif kind == 'long':
        levels = sorted({g.pick([0, 1, 127, 128]), g.r.randrange(bits), bits - 2, bits - 1} | {x for x in (255, 256, 257) if x < bits})
    elif kind == 'wide':
        levels = [g.pick([bits - 1, bits - 2, 8] if bits < 13 else [bits - 1, bits - 2])]
    else:
        levels = g.levels(bits)
    hist, parents = [], None
    for lv in levels:
        if kind == 'full':
            pf = gen.all_prefixes(lv + 1)
            mon.ev('full_tree')
        else:
            pf = g.prefixes(lv, strings, p['k'], parents)
            if kind == 'long':
                pf = tuple(sorted(set(pf) | {strings[0][:lv + 1]}))
        hist.append((lv, pf))
        parents = pf
    prev = []
    for lv, pf in hist:
        ap0 = (lv, pf)
        mon.ok(v.is_valid(ap0, prev), lambda: f'valid parameter refused: {ap0} after {prev}')
        ap = v.decode_agg_param(v.encode_agg_param(ap0))
        outs = []
        for nonce, pub, ins in reports:
            outs.append(gen.broadcast(v, vk, ctx, ap, nonce, pub, ins))
            mon.ev('reports_accepted')
        res = gen.aggregate(v, ap, outs, len(reports))
        want = [sum(s[:lv + 1] == q for s in strings) for q in pf]
        mon.eq(list(res), want, f'counts of {len(pf)} prefixes at level {lv} of {bits}-bit strings {strings}, history {prev}')
        if p.get('many'):
            times, k = [g.r.randint(1, 300) for _ in reports], g.pick([0, 1, 5, 8, 16, 20, 32, 40])
            want = [sum(t for s, t in zip(strings, times) if s[:lv + 1] == q) << k for q in pf]
            mon.eq(list(gen.aggregate_many(v, ap, outs, times, k)), want, f'counts at level {lv} of {times} times {2 ** k} reports of {strings}')
            mon.ev('large_batches')
        mon.ev('levels_collected')
        mon.ev('prefixes_counted', len(pf))
        mon.ev('many_prefixes', int(len(pf) > 500))
        if lv >= 256:
            mon.ev('level_ge_256')
        prev.append(ap0)
    if kind == 'wide' and p['k'] > 500:
        mon.case(bits, str(strings), str(hist))
        return
    # the last level again on fresh objects, without the history
    lv, pf = hist[-1]
    v2 = gen.build(d)
    if p.get('rejects'):
        v2.xof = v.xof
        mon.ev('histories_with_rejected_candidates', int(v.xof.rejected > 0))
    outs = [gen.broadcast(v2, vk, ctx, (lv, pf), nonce, pub, ins) for nonce, pub, ins in reports]
    res = gen.aggregate(v2, (lv, pf), outs, len(reports))
    mon.eq(list(res), [sum(s[:lv + 1] == q for s in strings) for q in pf], f'counts at level {lv} without history')
    mon.ev('history_free_level')
    mon.case(bits, str(strings), str(hist))
    if bits < 20:
        mon.sample(kind, bits=bits, strings=[''.join('01'[b] for b in s) for s in strings], levels=levels, result=res)
