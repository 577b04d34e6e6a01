"""C08: aggregation-parameter reuse is permitted exactly when it is safe."""
from vmon import gen, ref
from vmon.gen import G

RULE = ('One case asks is_valid() about one aggregation parameter after one history and compares with the specification '
        '(distinct, lexicographically sorted candidates; level above the last one; every candidate extends a prefix of the '
        'last parameter). Queries are random histories and their mutations violating exactly one condition, plus all '
        'pairs of small parameters. Prio3: exactly the empty history. Non-trivial: distinct (parameter, history).')
NEED = dict(expected_valid=1500, expected_invalid=3000, prio3=500, history_ge_2=500, exhaustive=2000, large_sets=120, deep_histories=60, long_prefixes=60)


def cases(c):
    out = []
    g = G(c.rng)
    for i in range(c.n(64, 400)):
        out.append(('random', dict(n=120, bits=g.pick([2, 3, 4, 5, 8, 9, 16, 33, 64, 128, 257, 300]))))
    for v in gen.PRIO3:
        out.append(('prio3', dict(d=g.prio3(v, budget=0.1))))
        out.append(('prio3', dict(d=g.prio3(v, budget=0.1))))
    for k in [260, 520, 1030, 2060, 5010, 9000] + [w + w // 8 + 2 for w in g.words(4, 12000)]:
        for bits in (15, 20, 33):
            out.append(('large', dict(bits=bits, k=k)))
    for bits in [40, 130, 260, 300, 520] + [w + 5 for w in g.words(4, 700)]:
        out.append(('deep', dict(bits=bits)))
    for bits in [260, 320, 520, 1030, 2060, 4110] + [w + w // 8 + 2 for w in g.words(4, 12000)]:
        out.append(('long', dict(bits=bits)))
    for bits in (1, 2, 3):
        for part in range(16):
            out.append(('exhaustive', dict(bits=bits, part=part)))
    return out


def judge(mon, v, ap, hist):
    want = ref.poplar1_valid(ap, hist)
    got = v.is_valid(ap, hist)
    mon.ok(isinstance(got, bool) or got in (0, 1), 'is_valid() must give a truth value')
    mon.ok(bool(got) == want, lambda: f'is_valid({ap}, {hist}) = {got}, specified {want}')
    mon.ev('expected_valid' if want else 'expected_invalid')
    if len(hist) >= 2:
        mon.ev('history_ge_2')
    mon.case(hash(ap), hash(tuple(hist)))


def large(g, v, bits, k, mon):
    """Many candidates, wrong in one place."""
    lv = bits - g.pick([1, 2])
    strings = [g.bits(bits) for _ in range(3)]
    pl = list(g.prefixes(lv, strings, k))
    n = len(pl)
    lo = g.r.randrange(lv)
    par = tuple(sorted({x[:lo + 1] for x in pl}))
    hs = [[], [(lo, par)]]
    for h in hs:
        judge(mon, v, (lv, tuple(pl)), h)
    for i in (n - 2, n - 2, g.r.randrange(n - 1), g.r.randrange(n * 3 // 4, n - 1), 0):
        h = g.pick(hs)
        x = list(pl)
        x[i], x[i + 1] = x[i + 1], x[i]
        judge(mon, v, (lv, tuple(x)), h)
        x = list(pl)
        x[i + 1] = x[i]
        judge(mon, v, (lv, tuple(x)), h)
        judge(mon, v, (lv, tuple(pl[:i] + pl[i + 1:] + [pl[i]])), h)
        # the parent of this candidate (and its neighbours below it) is gone
        q = pl[i + 1][:lo + 1]
        judge(mon, v, (lv, tuple(pl)), [(lo, tuple(x for x in par if x != q))])
        judge(mon, v, (lv, tuple(x for x in pl if x[:lo + 1] != q)), [(lo, tuple(x for x in par if x != q))])
        mon.ev('large_sets', 5)
    mon.sample('large', bits=bits, candidates=n)


def deep(g, v, bits, mon):
    """Long histories, of which the last parameter counts."""
    strings = [g.bits(bits) for _ in range(2)]
    hist, parents = [], None
    for lv in range(bits - 1):
        parents = tuple(sorted({s[:lv + 1] for s in strings})) if lv == 0 or g.r.random() < 0.8 or not parents else \
            g.prefixes(lv, strings, 2, parents)
        strings = [s for s in strings if s[:lv + 1] in parents] or [x + g.bits(bits - lv - 1) for x in parents[:2]]
        hist.append((lv, parents))
    for n in sorted({1, 2, 3, bits // 2, bits - 1, bits - 2} | {w for w in (g.word(1, bits - 1) for _ in range(6)) if w}):
        h = hist[:n]
        lv, pf = (n, tuple(sorted({s[:n + 1] for s in strings if s[:n] in h[-1][1]})))
        judge(mon, v, (lv, pf), h)
        judge(mon, v, (lv, pf), h[:-1] + [(n - 1, tuple(sorted({x[:-1] + (not x[-1],) for x in h[-1][1]})))])
        judge(mon, v, (lv, pf), h[:-1] + [(n - 1, h[-1][1][1:])])
        judge(mon, v, h[-1], h)
        judge(mon, v, h[0], h)
        judge(mon, v, h[-1], h[:-1])
        judge(mon, v, (lv, pf), h + [(lv, pf)])
        mon.ev('deep_histories', 7)
    mon.sample('deep', bits=bits)


def long(g, v, bits, mon):
    """Long candidates that differ late."""
    for _ in range(5):
        lv = bits - g.pick([1, 2, 5])
        s = g.bits(bits)[:lv + 1]
        i = g.pick([lv, lv - 1, g.r.randrange(lv * 3 // 4, lv + 1), g.r.randrange(lv + 1)])
        a, b = s[:i] + (False,) + s[i + 1:], s[:i] + (True,) + g.bits(bits)[i + 1:lv + 1]
        lo = g.pick([i - 1, i, lv - 1, g.r.randrange(lv)])
        lo = min(max(lo, 0), lv - 1)
        both = tuple(sorted({a[:lo + 1], b[:lo + 1]}))
        for h in ([], [(lo, both)], [(lo, both[:1])], [(lo, both[1:])]):
            judge(mon, v, (lv, (a, b)), h)
            judge(mon, v, (lv, (b, a)), h)
            judge(mon, v, (lv, (a,)), h)
            judge(mon, v, (lv, (b, b)), h)
        mon.ev('long_prefixes', 16)
    mon.sample('long', bits=bits)


def run(case, rng, mon):
    g = G(rng)
    p = case['p']
    if case['kind'] == 'prio3':
        v = gen.build(p['d'])
        for n in list(range(0, 40)) + [64, 100, 255, 256, 257, 1000]:
            mon.ok(bool(v.is_valid(None, [None] * n)) == (n == 0), lambda: f"Prio3 {p['d']} after {n} uses")
            mon.ev('prio3')
            mon.case(str(p['d']), n)
        mon.sample('prio3', d=p['d'])
        return
    bits = p['bits']
    v = gen.build(dict(v='poplar1', bits=bits))
    if case['kind'] == 'exhaustive':
        # all prefix lists up to length 3 over levels of a tiny tree (ordered, with repetition), pairs
        import itertools
        ps = []
        for lv in range(bits):
            pre = gen.all_prefixes(lv + 1)
            for k in range(0, 3):
                for t in itertools.product(pre, repeat=k):
                    ps.append((lv, t))
        pairs = [(a, b) for a in ps for b in ps]
        pairs = pairs[p['part']::16]
        g.r.shuffle(pairs)
        for ap, h in pairs[:4000]:
            judge(mon, v, ap, [h])
            mon.ev('exhaustive')
        for ap in ps:
            judge(mon, v, ap, [])
        return
    if case['kind'] == 'large':
        return large(g, v, bits, p['k'], mon)
    if case['kind'] == 'deep':
        return deep(g, v, bits, mon)
    if case['kind'] == 'long':
        return long(g, v, bits, mon)
    for _ in range(p['n']):
        # a valid history
        strings = [g.bits(bits) for _ in range(g.r.randint(1, 4))]
        hist, parents = [], None
        levels = sorted(g.r.sample(range(bits), g.r.randint(1, min(bits, 5))))
        for lv in levels:
            pf = g.prefixes(lv, strings, g.pick([0, 1, 2, 3, 5, 9]), parents)
            hist.append((lv, pf))
            parents = pf
        cut = g.r.randint(0, len(hist) - 1)
        ap, h = hist[cut], hist[:cut]
        judge(mon, v, ap, h)
        lv, pf = ap
        pl = list(pf)
        mutants = []
        if pl:
            k = g.r.randrange(len(pl))
            mutants.append((lv, tuple(pl[:k + 1] + pl[k:])))                   # adjacent duplicate
            mutants.append((lv, tuple(pl + [pl[k]])))                         # duplicate elsewhere
            q = list(pl[k])
            i = g.pick([0, lv, g.r.randrange(lv + 1)])
            q[i] = not q[i]
            q = tuple(q)
            if q not in pl:
                mutants.append((lv, tuple(sorted(pl + [q]))))                  # maybe outside the parents
                mutants.append((lv, tuple(sorted(pl[:k] + pl[k + 1:] + [q]))))
        if len(pl) > 1:
            a, b = sorted(g.r.sample(range(len(pl)), 2))
            x = list(pl)
            x[a], x[b] = x[b], x[a]
            mutants.append((lv, tuple(x)))
            mutants.append((lv, tuple(pl[-1:] + pl[:-1])))
            mutants.append((lv, tuple(pl[:-2] + pl[-1:] + pl[-2:-1])))
            mutants.append((lv, tuple(reversed(pl))))
        for mt in mutants:
            judge(mon, v, mt, h)
        if h:
            judge(mon, v, h[-1], h)                                            # same level again
            judge(mon, v, h[0], h)                                             # an earlier one again
            judge(mon, v, ap, list(reversed(h)))
            judge(mon, v, ap, h[:-1])
            judge(mon, v, ap, h + [ap])
            judge(mon, v, ap, [h[-1]] * 2 + [h[0]])
            # parents removed from the last parameter
            ll, lp = h[-1]
            if lp:
                k = g.r.randrange(len(lp))
                judge(mon, v, ap, h[:-1] + [(ll, lp[:k] + lp[k + 1:])])
                other = tuple(sorted(set(lp[:k] + lp[k + 1:]) | {g.bits(ll + 1)}))
                judge(mon, v, ap, h[:-1] + [(ll, other)])
            # parents only satisfied by an older parameter
            judge(mon, v, ap, [h[-1], (h[-1][0], ())])
            # level equal to / below the last
            if ll > 0:
                judge(mon, v, (ll, lp), h)
                judge(mon, v, (ll - 1, tuple(sorted({x[:-1] for x in lp}))), h)
            if lv + 1 < bits:
                judge(mon, v, (lv, pf), h + [(lv + 1, tuple(sorted(x + (False,) for x in pf)))])
            # levels in front of the last one must not matter
            judge(mon, v, ap, [(bits - 1, ())] + h)
            judge(mon, v, ap, [(bits - 1, g.prefixes(bits - 1, strings, 3))] + h)
    mon.sample('random', bits=bits, last_parameter=ap, history=h)
