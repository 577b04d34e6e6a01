"""C24: the reference drivers run the protocol faithfully."""
import collections

from vmon import gen, ref, rec
from vmon.gen import G

RULE = ('One case drives a recording VDAF, DAF or proof system (every value is a token naming its origin) with generated numbers '
        'of shares, rounds and measurements through run_vdaf, run_daf or run_flp. An offline checker over the recorded calls '
        'demands: one sharding per measurement with fresh randomness of the declared sizes; every aggregator initialised with '
        'its own share and the common inputs; every round run for every report with all verifier shares in order; each output '
        'share aggregated exactly once by its aggregator; the true count; the result passed through. Fault cases break the n-th call of one operation; the driver must fail, as it must on a verification key of another size than declared. '
        'Non-trivial: distinct (driver, shares, rounds, measurements, fault).')
NEED = dict(runs=800, reports_checked=1500, verifier_rounds_checked=2500, faults_propagated=600, flp_runs=300, daf_runs=150, sharings=300,
            calls_recorded=20000, keys_refused=500)


def cases(c):
    out = []
    g = G(c.rng)
    for i in range(c.n(800, 5000)):
        out.append(('vdaf', dict(n=g.size(1, 40, (2, 3, 4)) if i % 3 else 2, r=g.pick([1, 1, 2, 2, 3, 4, 5, g.r.randint(1, 12)]),
                                 m=g.pick([0, 1, 1, 2, 3, 5, g.r.randint(0, 20)]))))
    for i in range(c.n(40, 300)):
        out.append(('vdaf', dict(n=g.size(1, 5, (2, 3)), r=g.pick([1, 2, 3]), m=g.r.randint(20, 300))))
        out.append(('daf', dict(n=g.size(1, 5, (2, 3)), m=g.r.randint(20, 300))))
        out.append(('vdaf', dict(n=g.r.randint(60, 256), r=g.pick([1, 2, 3]), m=g.pick([1, 2, 3]))))
        out.append(('vdaf', dict(n=g.pick([2, 3]), r=g.r.randint(12, 70), m=g.pick([1, 2, 3]))))
    for i in range(c.n(250, 2000)):
        out.append(('daf', dict(n=g.size(1, 40, (2, 3)), m=g.pick([0, 1, 2, 3, g.r.randint(0, 20)]))))
    for i in range(c.n(400, 3000)):
        out.append(('flp', dict(n=g.size(1, 30, (1, 2, 3)), f=g.pick(['Field64', 'Field96', 'Field128']))))
        if i % 10 == 0:
            out.append(('flp', dict(n=g.r.randint(60, 300), f=g.pick(['Field64', 'Field96', 'Field128']))))
    for i in range(c.n(300, 2000)):
        out.append(('share', dict(n=g.size(1, 60, (1, 2, 3)), k=g.size(0, 30), f=g.pick(['Field64', 'Field96', 'Field128', 'Field255']))))
    for w in [500, 1030] + g.words(8, 3000):
        for k in (1, 2):
            m = w + g.r.randint(1, 9)
            out.append(('vdaf', dict(n=g.pick([2, 3]), r=g.pick([1, 2, 3]), m=m)))
            out.append(('daf', dict(n=g.pick([2, 3]), m=m)))
            out.append(('vdaf', dict(n=g.pick([2, 3]), r=min(m, 900), m=g.pick([1, 2]))))
            out.append(('flp', dict(n=min(m, 600), f=g.pick(['Field64', 'Field96', 'Field128']))))
            out.append(('share', dict(n=m, k=g.size(0, 5), f=g.pick(['Field64', 'Field96', 'Field128', 'Field255']))))
            out.append(('share', dict(n=g.r.randint(1, 5), k=m, f=g.pick(['Field64', 'Field96', 'Field128', 'Field255']))))
    return out


def run(case, rng, mon):
    globals()['run_' + case['kind']](G(rng), case['p'], mon)


def check_shards(mon, what, log, ctx, ms, nonce, rand):
    sh = [e for e in log if e[0] == 'shard']
    mon.ok(collections.Counter(repr(e[2]) for e in sh) == collections.Counter(map(repr, ms)),
           lambda: f'{what}: measurements sharded {[e[2] for e in sh]} instead of {ms}')
    seen, parts = set(), set()
    for _, c, m, no, ra in sh:
        mon.eq(c, ctx, f'{what}: context given to shard')
        mon.eq((len(no), len(ra)), (nonce, rand), f'{what}: nonce and randomness sizes')
        for x in (('n', no), ('r', ra)):
            if len(x[1]) >= 16:
                mon.ok(x not in seen, lambda: f'{what}: {"nonce" if x[0] == "n" else "randomness"} reused between measurements')
                mon.ok(len(set(x[1])) > 2, lambda: f'{what}: constant randomness {x[1].hex()}')
                seen.add(x)
                # nothing repeats inside one string, or between strings
                blocks = [x[1][i:i + 16] for i in range(0, len(x[1]) - 15, 8)]
                mon.ok(len(set(blocks)) == len(blocks), lambda: f'{what}: {len(x[1])} random bytes repeat themselves')
                mon.ok(not any(b in parts for b in blocks), lambda: f'{what}: {len(x[1])} random bytes share a part with others')
                parts.update(blocks)
        mon.ok(not (len(no) >= 16 and ra[:16] == no[:16]), lambda: f'{what}: nonce is the sharding randomness')
    return sh


def check_aggregates(mon, what, log, ap, outs, n, count, result):
    """outs[i][j]: expected output share of report i at aggregator j."""
    un = [e for e in log if e[0] == 'unshard']
    mon.eq(len(un), 1, f'{what}: number of unshard calls')
    _, a, aggs, num = un[0]
    mon.eq(a, ap, f'{what}: parameter given to unshard')
    mon.eq(num, count, f'{what}: number of measurements given to unshard')
    mon.eq(len(aggs), n, f'{what}: number of aggregate shares')
    for j in range(n):
        mon.ok(aggs[j] == sorted(o[j] for o in outs), lambda: f'{what}: aggregate share {j} holds {len(aggs[j])} output shares, not exactly those of '
               f'aggregator {j} for each of the {len(outs)} reports')
    want = rec.H('result', ap, count, *[x for b in aggs for x in b]).hex()
    mon.eq(result, want, f'{what}: returned result')


def faulty(g, mon, what, make, go, ops):
    """ops: {operation: number of calls in a clean run}."""
    for _ in range(4):
        op = g.pick(sorted(k for k, v in ops.items() if v))
        k = g.pick([0, ops[op] - 1, g.r.randrange(ops[op])])
        exc = g.pick([rec.Boom, ValueError, AssertionError, KeyError, StopIteration, IndexError, RuntimeError])
        obj = make((op, k, exc))
        mon.raises(f'{what}: {exc.__name__} in call {k} of {op}', lambda: go(obj))
        mon.ok(not any(e[0] == 'unshard' for e in obj.log) or op == 'unshard', lambda: f'{what}: aggregate unsharded although call {k} of {op} failed')
        mon.ev('faults_propagated')
        mon.case(what, op, k)


def run_vdaf(g, P, mon):
    R = gen.repo()
    n, r, k = P['n'], P['r'], P['m']
    key, nonce, rand = g.pick([16, 32, 16, 1]), g.pick([16, 16, 32, 17, 100]), g.pick([24, 16, 64, 33, 65, 96, 128, 200, 257, 1000, 5000])

    def make(fail=None):
        return rec.traced_vdaf()(n, r, fail, key, nonce, rand)
    ms = [g.r.choice([i, i % 2, g.r.randrange(100)]) for i in range(k)]
    vk, ctx, ap = g.r.randbytes(key), g.ctx(), g.pick([None, 0, 7, (3, (True, False))])
    V = make()
    what = f'run_vdaf with {n} shares, {r} rounds, {k} measurements'
    given = list(ms)

    def go(v):
        return R.vdaf.run_vdaf(v, vk, ap, ctx, given)
    res = go(V)
    mon.ok(given == ms, f'{what}: list of measurements modified')
    log = V.log
    sh = check_shards(mon, what, log, ctx, ms, nonce, rand)
    got = collections.defaultdict(set)
    for e in log:
        if e[0] in ('verify_init', 'to_message', 'verify_next'):
            got[e[0]].add(repr(e[1:]))
    want = collections.defaultdict(set)
    outs = []
    for _, c, m, no, ra in sh:
        t = rec.H(c, m, no, ra)
        pub, ins = rec.tok('pub', t), [rec.tok('in', j, t) for j in range(n)]
        st = []
        for j in range(n):
            want['verify_init'].add(repr((vk, ctx, j, ap, no, pub, ins[j])))
            st.append(V.first(vk, ctx, j, ap, no, pub, ins[j]))
        for i in range(r):
            shares = [x[1] for x in st]
            want['to_message'].add(repr((ctx, ap, shares)))
            msg = V.combine(ctx, ap, shares)
            nxt = []
            for j in range(n):
                want['verify_next'].add(repr((ctx, j, i, st[j][0].tr, msg)))
                nxt.append(V.following(ctx, st[j][0], msg))
            st = nxt
            mon.ev('verifier_rounds_checked')
        outs.append(st)
        mon.ev('reports_checked')
    for op in ('verify_init', 'to_message', 'verify_next'):
        miss, extra = want[op] - got[op], got[op] - want[op]
        mon.ok(not miss and not extra, lambda: f'{what}: {op} calls differ from the protocol: missing {sorted(miss)[:1]}, unexpected {sorted(extra)[:1]}')
    check_aggregates(mon, what, log, ap, outs, n, k, res)
    mon.ev('calls_recorded', len(log))
    V2 = make()
    go(V2)
    old = {e[3:] for e in sh}
    mon.ok(not any(e[0] == 'shard' and e[3:] in old for e in V2.log), f'{what}: randomness reused by a second run')
    faulty(g, mon, what, make, go, {o: c for o, c in V.count.items() if o != 'merge'})
    for bad in (g.pick([b'', vk[:-1], vk[:len(vk) // 2]]), vk + g.pick([b'\0', vk, g.r.randbytes(g.r.randint(1, 40))])) if k else ():
        try:
            R.vdaf.run_vdaf(make(), bad, ap, ctx, list(ms))
        except Exception:
            mon.ev('keys_refused')
        else:
            mon.ok(False, f'{what}: verification key of {len(bad)} bytes accepted, {key} declared')
    mon.ev('runs')
    mon.case('vdaf', n, r, k)
    mon.sample('vdaf', shares=n, rounds=r, measurements=k, calls=len(log))


def run_daf(g, P, mon):
    import vdaf_poc.daf
    n, k = P['n'], P['m']
    nonce, rand = g.pick([16, 16, 32, 17, 100]), g.pick([24, 16, 64, 33, 65, 96, 128, 200, 257, 1000, 5000])

    def make(fail=None):
        return rec.traced_daf()(n, fail, nonce, rand)
    ms = [g.r.choice([i, i % 2, g.r.randrange(100)]) for i in range(k)]
    ctx, ap = g.ctx(), g.pick([None, 0, 7, (3, (True, False))])
    D = make()
    what = f'run_daf with {n} shares, {k} measurements'

    def go(d):
        return vdaf_poc.daf.run_daf(d, ctx, ap, list(ms))
    res = go(D)
    sh = check_shards(mon, what, D.log, ctx, ms, nonce, rand)
    want, outs = set(), []
    for _, c, m, no, ra in sh:
        t = rec.H(c, m, no, ra)
        pub, ins = rec.tok('pub', t), [rec.tok('in', j, t) for j in range(n)]
        o = []
        for j in range(n):
            want.add(repr((ctx, j, ap, no, pub, ins[j])))
            o.append(rec.tok('out', ctx, j, ap, no, pub, ins[j]))
        outs.append(o)
        mon.ev('reports_checked')
    got = {repr(e[1:]) for e in D.log if e[0] == 'prep'}
    mon.ok(got == want, lambda: f'{what}: prep calls differ from the protocol: missing {sorted(want - got)[:1]}, unexpected {sorted(got - want)[:1]}')
    check_aggregates(mon, what, D.log, ap, outs, n, k, res)
    mon.ev('calls_recorded', len(D.log))
    faulty(g, mon, what, make, go, {o: c for o, c in D.count.items() if o != 'merge'})
    mon.ev('runs')
    mon.ev('daf_runs')
    mon.case('daf', n, k)
    mon.sample('daf', shares=n, measurements=k, calls=len(D.log))


def run_flp(g, P, mon):
    R = gen.repo()
    n = P['n']
    F = ref.FIELDS[P['f']]
    p = F.p
    ml, pl, vl = g.size(1, 12), g.size(1, 12), g.size(1, 9)
    jr, pr, qr = g.size(0, 5), g.size(0, 6), g.size(1, 6)
    ans = g.r.random() < 0.5

    def make(fail=None):
        return rec.traced_flp()(P['f'], ml, pl, vl, jr, pr, qr, ans, fail)
    meas = [g.fe(p) for _ in range(ml)]
    L = make()
    what = f'run_flp with {n} shares over {P["f"]}'

    def go(x):
        return R.flp.run_flp(x, [x.field(v) for v in meas], n)
    res = go(L)
    mon.eq(res, ans, f'{what}: decision')
    pv = [e for e in L.log if e[0] == 'prove']
    qs = [e for e in L.log if e[0] == 'query']
    dc = [e for e in L.log if e[0] == 'decide']
    mon.eq((len(pv), len(qs)), (1, n), f'{what}: calls of prove and query')
    mon.ok(len(dc) >= 1, f'{what}: no decision')
    _, m, prand, jrand = pv[0]
    mon.eq(m, meas, f'{what}: measurement given to prove')
    mon.eq((len(prand), len(jrand)), (pr, jr), f'{what}: prover and joint randomness lengths')
    mon.ok(all((len(q[3]), len(q[4]), q[5]) == (qr, jr, n) for q in qs), f'{what}: query randomness lengths or number of shares')
    mon.ok(all(q[4] == jrand for q in qs), f'{what}: joint randomness of prover and verifiers differ')
    mon.ok(all(q[3] == qs[0][3] for q in qs), f'{what}: verifiers use different query randomness')
    allr = prand + jrand + qs[0][3]
    mon.ok(len(set(allr)) == len(allr), lambda: f'{what}: randomness reused: {allr[:6]}')
    for i, whole, name in ((1, meas, 'measurement'), (2, L.proof, 'proof')):
        tot = [sum(q[i][t] for q in qs) % p for t in range(len(whole))]
        mon.ok(all(len(q[i]) == len(whole) for q in qs) and tot == whole, lambda: f'{what}: {name} shares do not add up')
        if n > 1:
            mon.ok(len({tuple(q[i]) for q in qs}) == n, lambda: f'{what}: {name} shares repeat')
            mon.ok(all(q[i] != whole for q in qs), lambda: f'{what}: {name} is sent in the clear')
    tot = [sum(q[6][t] for q in qs) % p for t in range(vl)]
    mon.ok(all(d[1] == tot for d in dc), lambda: f'{what}: decision on something else than the sum of the verifier shares')
    L2 = make()
    go(L2)
    q2 = [e for e in L2.log if e[0] == 'query']
    mon.ok(not set(allr) & set(q2[0][3]), f'{what}: randomness reused by a second run')
    for op, k in (('prove', 0), ('query', g.r.randrange(n)), ('decide', 0)):
        obj = make((op, k, g.pick([rec.Boom, ValueError, AssertionError])))
        mon.raises(f'{what}: failure in call {k} of {op}', lambda: go(obj))
        mon.ev('faults_propagated')
    mon.ev('calls_recorded', len(L.log))
    mon.ev('flp_runs')
    mon.ev('runs')
    mon.case('flp', n, ml, pl, vl, jr, pr, qr)
    mon.sample('flp', shares=n, lengths=f'{ml} {pl} {vl} {jr} {pr} {qr}')


def run_share(g, P, mon):
    R = gen.repo()
    n, k = P['n'], P['k']
    F, f = ref.FIELDS[P['f']], gen.fld(P['f'])
    vec = [g.fe(F.p) for _ in range(k)]
    objs = [f(x) for x in vec]
    what = f'additive_secret_share of {k} elements into {n}'
    sh = [gen.ints(s) for s in R.flp.additive_secret_share(objs, n, f)]
    mon.eq(gen.ints(objs), vec, f'{what}: input modified')
    mon.eq([len(s) for s in sh], [k] * n, f'{what}: shape')
    mon.eq([sum(s[i] for s in sh) % F.p for i in range(k)], vec, f'{what}: sum')
    if n > 1 and k:
        again = [gen.ints(s) for s in R.flp.additive_secret_share(objs, n, f)]
        for i in range(n):
            mon.ok(all(x != y for x, y in zip(sh[i], again[i])), lambda: f'{what}: share {i} has the same elements in two sharings')
        flat = [x for s in sh[:-1] for x in s]
        mon.ok(len(set(flat)) == len(flat), f'{what}: shares repeat elements')
    mon.ev('sharings')
    mon.case('share', n, k, P['f'])
