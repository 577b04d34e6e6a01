"""C18: aggregation is independent of order, batching and merging."""
from vmon import gen, ref
from vmon.gen import G

RULE = ('One case takes one VDAF, aggregation parameter and a set of output shares (of verified reports, or arbitrary legal '
        'ones) and accumulates them by several histories: permutations, random partitions into batches updated in an '
        'interleaved fashion, merge trees of random shape, with empty aggregates sprinkled in, through the wire format or not. '
        'Every aggregate share must equal the element-wise sum modulo the field order and unsharding must give the same result '
        'for every order of aggregate shares; mismatched lengths must be refused. Non-trivial: distinct (VDAF, history).')
NEED = dict(histories=2500, merges=5000, updates=15000, empty_aggregates=800, unshard_orders=1000, mismatches_refused=2500, real_reports=300, large_merges=35)


def cases(c):
    out = []
    g = G(c.rng)
    for v in gen.PRIO3:
        for i in range(c.n(150, 1200)):
            out.append(('prio3', dict(d=g.prio3(v, budget=0.03 if i % 3 == 0 else 5, max_shares=8), real=i % 3 == 0)))
    for i in range(c.n(300, 2400)):
        bits = g.size(1, 40, (1, 2, 8, 9, 16))
        out.append(('poplar1', dict(d=dict(v='poplar1', bits=bits, shares=2), level=g.pick([0, bits - 1, g.r.randrange(bits)]),
                                    k=g.size(0, 12), real=i % 3 == 0)))
    for i in range(c.n(30, 250)):
        out.append(('prio3', dict(d=dict(v=g.pick(['count', 'sum']), shares=g.r.randint(9, 255), max=g.r.randint(1, 99)), real=False)))
    for i in range(c.n(60, 500)):
        d = g.prio3(g.pick(gen.PRIO3), budget=0.01, max_shares=3) if i % 3 else dict(v='poplar1', bits=g.r.randint(1, 9), shares=2)
        lv = g.pick([0, d['bits'] - 1]) if i % 3 == 0 else None
        out.append(('many', dict(d=d, level=lv, k=g.size(1, 5), n=g.pick([32, 33, 63, 64, 65, 100, 127, 128, 129, 130, 255, 256, 257, 300, g.r.randint(20, 700)]))))
    for v in ('sumvec', 'hist', 'mhot', 'mp'):
        for i in range(c.n(8, 60)):
            out.append(('prio3', dict(d=g.wide(v, 1000 if i % 4 else 6000), real=i % 4 == 1)))
    for k in [60, 130, 257, 300, 600, 1030] + [w + g.r.randint(1, 9) for w in g.words(12, 4000)]:
        out.append(('poplar1', dict(d=dict(v='poplar1', bits=14, shares=2), level=g.pick([12, 13]), k=k, real=False)))
    for w in g.words(16, 3000):
        for d in (dict(v='count', shares=2), dict(v='sum', shares=3, max=9)):
            out.append(('many', dict(d=d, level=None, k=1, n=w + g.r.randint(1, 9))))
    return out


def many(g, vdaf, ap, F, f, width, name, n, mon):
    """Merge a large number of aggregate shares at once, and update once per output share."""
    rows = [[g.fe(F.p) for _ in range(width)] for _ in range(n)]
    exp = F.enc([sum(r[i] for r in rows) % F.p for i in range(width)])
    shares = [vdaf.decode_agg_share(ap, F.enc(r)) for r in rows]
    got = vdaf.encode_agg_share(vdaf.merge(ap, shares))
    mon.ok(got == exp, lambda: f'{name}: merging {n} aggregate shares gives {got.hex()[:120]}, the sum is {exp.hex()[:120]}')
    a = vdaf.agg_init(ap)
    for r in rows:
        a = vdaf.agg_update(ap, a, vdaf.decode_out_share(ap, F.enc(r)))
    upd = vdaf.encode_agg_share(a)
    mon.ok(upd == exp, lambda: f'{name}: aggregating {n} output shares gives {upd.hex()[:120]}, the sum is {exp.hex()[:120]}')
    k = g.r.randint(0, n)
    both = vdaf.merge(ap, [vdaf.merge(ap, shares[:k]), vdaf.merge(ap, shares[k:])])
    got2 = vdaf.encode_agg_share(both)
    mon.ok(got2 == exp, lambda: f'{name}: merging {k} and {n - k} aggregate shares gives {got2.hex()[:120]}, the sum is {exp.hex()[:120]}')
    mon.ev('large_merges')
    mon.ev('merges', 4)
    mon.ev('updates', n)
    mon.case(name, 'many', n, k)


def history(g, vdaf, ap, shares, mon, tree):
    """Aggregate the list of output shares by a random history; encoded share."""
    wire = g.r.random() < 0.5

    def hop(a):
        return vdaf.decode_agg_share(ap, vdaf.encode_agg_share(a)) if wire and g.r.random() < 0.5 else a
    shares = list(shares)
    g.r.shuffle(shares)
    nb = g.pick([1, 1, 2, 3, 5, len(shares) + 1])
    batches = [vdaf.agg_init(ap) for _ in range(nb)]
    for o in shares:
        b = g.r.randrange(nb)
        if wire:
            o = vdaf.decode_out_share(ap, vdaf.encode_out_share(o))
        batches[b] = hop(vdaf.agg_update(ap, batches[b], o))
        mon.ev('updates')
    for _ in range(g.pick([0, 0, 1, 2])):
        batches.insert(g.r.randrange(len(batches) + 1), vdaf.agg_init(ap))
        mon.ev('empty_aggregates')
    while len(batches) > 1 or g.r.random() < 0.2:
        k = g.r.randint(1, len(batches))
        g.r.shuffle(batches)
        batches = [hop(vdaf.merge(ap, batches[:k]))] + batches[k:]
        mon.ev('merges')
        tree.append(k)
    return vdaf.encode_agg_share(batches[0])


def run(case, rng, mon):
    g = G(rng)
    P = case['p']
    d = P['d']
    vdaf = gen.build(d)
    n = vdaf.SHARES
    name = str(d)
    nrep = g.pick([0, 1, 2, 3, 6, 10, 17])
    if d['v'] == 'poplar1':
        F = ref.F64 if P['level'] < d['bits'] - 1 else ref.F255
        strings = [g.bits(d['bits']) for _ in range(4)]
        ap = (P['level'], g.prefixes(P['level'], strings, P['k']))
        width = len(ap[1])
    else:
        C = gen.circuit(d)
        F = C.F
        ap, width = None, len(C.truncate([0] * C.meas_len))
    p = F.p
    f = gen.fld(F.name)
    if case['kind'] == 'many':
        return many(g, vdaf, ap, F, f, width, name, P['n'], mon)
    per_report = []
    want = None
    if P['real']:
        nrep = min(nrep, 3)
        ms = []
        ctx, vk = g.ctx(), g.key()
        for _ in range(nrep):
            m = g.pick(strings) if d['v'] == 'poplar1' else g.meas(d)
            nonce = g.nonce()
            pub, ins = gen.shard(vdaf, ctx, m, nonce, gen.rand_for(vdaf, g))
            per_report.append(gen.broadcast(vdaf, vk, ctx, ap, nonce, pub, ins))
            ms.append(m)
            mon.ev('real_reports')
        if d['v'] == 'poplar1':
            want = [sum(m[:P['level'] + 1] == q for m in ms) for q in ap[1]]
        elif ms:
            want = gen.expect_total(d, ms)
    else:
        for _ in range(nrep):
            per_report.append([[f(g.fe(p)) for _ in range(width)] for _ in range(n)])
    aggs = None
    for h in range(4):
        tree = []
        encs = [history(g, vdaf, ap, [r[j] for r in per_report], mon, tree) for j in range(n)]
        for j, e in enumerate(encs):
            exp = F.enc([sum(r[j][i].int() for r in per_report) % p for i in range(width)])
            mon.ok(e == exp, lambda: f'{name}: aggregate share {j} of {nrep} output shares after history {h} (merges of {tree}) is '
                   f'{e.hex()[:120]}, the sum is {exp.hex()[:120]}')
        mon.ev('histories')
        mon.case(name, nrep, tuple(tree), h)
        aggs = encs
    base = None
    for _ in range(3):
        order = list(range(n))
        g.r.shuffle(order)
        r = vdaf.unshard(ap, [vdaf.decode_agg_share(ap, aggs[j]) for j in order], nrep)
        base = r if base is None else base
        mon.ok(r == base, lambda: f'{name}: unshard gives {r} for order {order}, {base} for another')
        mon.ev('unshard_orders')
    if want is not None:
        mon.eq(base, want, f'{name}: aggregate of {nrep} reports')
    # mismatched lengths
    a = vdaf.decode_agg_share(ap, aggs[0])
    for w in sorted({0, width - 1, width + 1, 2 * width, width + 7} - {width}):
        if w < 0:
            continue
        o = [f(g.fe(p)) for _ in range(w)]
        mon.raises(f'{name}: adding an output share of {w} elements to {width}', lambda: vdaf.agg_update(ap, a, o))
        mon.raises(f'{name}: adding an output share of {width} elements to an aggregate of {w}', lambda: vdaf.agg_update(ap, o, a))
        mon.raises(f'{name}: merging {width} with {w} elements', lambda: vdaf.merge(ap, [a, o]))
        mon.raises(f'{name}: merging {w} with {width} elements', lambda: vdaf.merge(ap, [o, a]))
        sh = [vdaf.decode_agg_share(ap, e) for e in aggs]
        sh[g.r.randrange(n)] = o
        mon.raises(f'{name}: unsharding {width} with {w} elements', lambda: vdaf.unshard(ap, sh, nrep))
        mon.ev('mismatches_refused', 5)
    mon.sample(case['kind'], vdaf=name, reports=nrep)
