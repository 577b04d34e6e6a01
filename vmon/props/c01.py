"""C01: Prio3 aggregate results are exact."""
from vmon import gen
from vmon.gen import G

RULE = ('One case is a batch of in-range measurements (boundary biased) for one Prio3 instance, sharded, verified by every '
        'aggregator over encoded messages and collected; the oracle recomputes the plain count/sum/vector/histogram. '
        'Parameters: systematic sweeps of share counts, bounds, lengths and chunk lengths plus random ones. '
        'Some batches run over an XOF most of whose streams contain out-of-range candidates. '
        'Non-trivial: a distinct (parameters, measurements) batch that was accepted by all aggregators and collected.')
NEED = dict(batches_collected=200, reports_accepted=400, large_batches=25, wide_vectors=24, long_encodings=300)


def cases(c):
    out = []
    g = G(c.rng)
    for s in range(2, 256):
        out.append(('sweep', dict(d=dict(v='count', shares=s), n=1)))
    for s in ([2, 3, 4, 7, 16, 31, 100, 128, 200, 254, 255] if c.tier == 'quick' else range(2, 256)):
        out.append(('sweep', dict(d=dict(v='sum', shares=s, max=9), n=1)))
        out.append(('sweep', dict(d=dict(v='sumvec', shares=s, length=2, max=2, chunk=3), n=1)))
        out.append(('sweep', dict(d=dict(v='hist', shares=s, length=3, chunk=2), n=1)))
        out.append(('sweep', dict(d=dict(v='mhot', shares=s, length=3, max=2, chunk=2), n=1)))
    for m in range(1, c.n(70, 600)):
        out.append(('sweep', dict(d=dict(v='sum', shares=2, max=m), n=4)))
        out.append(('sweep', dict(d=dict(v='sumvec', shares=2, length=1 + m % 3, max=m, chunk=1 + m % 5), n=2)))
    for b in range(1, 63):
        for m in ((1 << b) - 1, 1 << b, (1 << b) + 1):
            out.append(('sweep', dict(d=dict(v='sum', shares=2, max=m), n=2)))
    for n in range(1, c.n(20, 60)):
        for ch in sorted({1, 2, 3, n // 2 + 1, n - 1, n, n + 1, 2 * n} if c.tier == 'quick' else set(range(1, n + 3))):
            if ch > 0:
                out.append(('sweep', dict(d=dict(v='hist', shares=2 + n % 3, length=n, chunk=ch), n=1)))
                out.append(('sweep', dict(d=dict(v='mhot', shares=2 + n % 2, length=n, max=1 + ch % n, chunk=ch), n=1)))
    for k in (1, 2, 3, 4, 5, 8, 16, 64, 128, 254, 255) if c.tier == 'quick' else range(1, 256):
        for f in ('Field64', 'Field96', 'Field128'):
            out.append(('sweep', dict(d=dict(v='mp', shares=2, field=f, proofs=k, length=2, max=3, chunk=2), n=1)))
    for _ in range(c.n(900, 9000)):
        out.append(('random', dict(d=g.prio3(budget=0.4 if c.tier == 'quick' else 1.5), n=g.pick([1, 1, 2, 3]))))
    for _ in range(c.n(12, 100)):
        out.append(('random', dict(d=g.prio3(budget=0.02, max_shares=8), n=40)))
    for v in gen.PRIO3:
        for _ in range(c.n(12, 100)):
            out.append(('rejects', dict(d=g.prio3(v, budget=0.03, max_shares=6), n=2)))
    for v in gen.PRIO3:
        for _ in range(c.n(10, 60)):
            out.append(('many', dict(d=g.prio3(v, budget=0.03, max_shares=5), n=3)))
    for v in ('sumvec', 'hist', 'mhot', 'mp'):
        for i in range(c.n(12, 60)):
            out.append(('wide', dict(d=g.wide(v, 1000 if i % 3 else 6000, shares=2 if i % 4 else 3), n=1 if v != 'hist' else 2)))
    for v in ('sumvec', 'hist', 'mhot', 'mp'):
        for i in range(c.n(12, 60)):
            out.append(('code', dict(d=dict(g.wide(v, 6000 if i % 3 else 70000 if v == 'hist' else 20000)))))
    if c.tier != 'quick':
        out.append(('wide', dict(d=dict(v='hist', shares=2, length=65600, chunk=9400), n=1)))
    return out


def code(g, d, v, C, mon):
    """Long vectors without the proof: encoded, truncated, added up and decoded."""
    for _ in range(3):
        ms = [g.meas(d) for _ in range(12 if d['v'] == 'hist' else 2)]
        if d['v'] == 'hist':
            ms += [w % d['length'] for w in (g.word(1, d['length']) for _ in range(8)) if w is not None]
        tot = None
        for m in ms:
            t = v.flp.truncate(v.flp.encode(m))
            tot = t if tot is None else [a + b for a, b in zip(tot, t)]
        mon.eq(list(v.flp.decode(tot, len(ms))), C.total(ms), f'sum of the encodings of {len(ms)} measurements under {d}')
        mon.ev('long_encodings', len(ms))
        mon.case(str(d), str(ms))


def run(case, rng, mon):
    g = G(rng)
    d = case['p']['d']
    v = gen.build(d)
    if case['kind'] == 'rejects':
        v.xof = gen.rejecting_xof()
    C = gen.circuit(d)
    if case['kind'] == 'code':
        return code(g, d, v, C, mon)
    ctx, vk = g.ctx(), g.key()
    ms = [g.meas(d) for _ in range(case['p']['n'])]
    while len(ms) > 1 and max(flat(C.total(ms))) >= C.F.p:
        ms.pop()
    outs, last = [], None
    for i, m in enumerate(ms):
        nonce, rand = last = g.kin(last, (g.nonce(), gen.rand_for(v, g)))
        pub, ins = gen.shard(v, ctx, m, nonce, rand)
        mon.eq(len(ins), d['shares'], 'number of input shares')
        o = gen.broadcast(v, vk, ctx, None, nonce, pub, ins)
        mon.ev('reports_accepted')
        mon.ev('aggregator_verifications', d['shares'])
        outs.append(o)
    res = gen.aggregate(v, None, outs, len(ms))
    want = C.total(ms)
    mon.eq(res, want, f'aggregate result of {ms} under {d}')
    mon.ev('batches_collected')
    if case['kind'] == 'many':
        p, one = C.F.p, max(flat(C.total(ms)))
        times = [g.r.randint(1, 400) for _ in ms]
        k = 0
        while k < g.r.choice([1, 3, 9, 14, 17, 26, 33, 45]) and ((one * 400) << (k + 1)) < p:
            k += 1
        if (one * 400) << k < p:
            want = C.total([m for m, t in zip(ms, times) for _ in range(t)])
            want = [x << k for x in want] if isinstance(want, list) else want << k
            mon.eq(gen.aggregate_many(v, None, outs, times, k), want, f'result of {times} times {2 ** k} reports of {ms} under {d}')
            mon.ev('large_batches')
    if case['kind'] == 'wide':
        mon.ev('wide_vectors')
    if case['kind'] == 'rejects':
        mon.ev('batches_with_rejected_candidates', int(v.xof.rejected > 0))
    mon.ev('variant_' + d['v'])
    mon.case(str(d), str(ms))
    mon.sample(d['v'], d=d, measurements=ms, result=res)


def flat(x):
    return x if isinstance(x, list) else [x]
