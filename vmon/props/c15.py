"""C15: proofs of valid measurements always verify, from any linear sharing."""
from vmon import circ, gen, ref
from vmon.gen import G

RULE = ('One case takes a validity circuit (built-in with generated parameters, or generated: up to 3 gadgets of degree 1..7, '
        'nested parallel sums, interleaved calls, several outputs) and a valid measurement, proves it with random or degenerate '
        'randomness and demands declared lengths, acceptance unshared, from additive sharings and from affine sharings, and '
        'that the combined verifier equals the verifier of the unshared data. Linearity is also demanded for invalid '
        'measurements and arbitrary proof strings. Non-trivial: distinct (circuit, measurement, sharing).')
NEED = dict(accepted=1500, additive_linear=1500, affine_linear=600, generated_circuits=300, builtin_circuits=200, arbitrary_linear=300, many_shares=40, large_circuits=16)


def cases(c, budget=0.04, cost=3_000_000):
    out = []
    g = G(c.rng)
    for v in gen.PRIO3:
        for _ in range(c.n(60, 600)):
            d = g.prio3(v, budget=budget, shares=2)
            if v in ('count', 'sum'):
                d['f'] = g.pick(['Field64', 'Field64', 'Field96', 'Field128'])
            elif v in ('hist', 'mhot', 'sumvec'):
                d['f'] = g.pick(['Field128', 'Field128', 'Field96', 'Field64'])
                if v == 'sumvec' and d['max'].bit_length() >= ref.FIELDS[d['f']].p.bit_length() - 1:
                    d['f'] = 'Field128'
            out.append(('builtin', dict(d=d)))
        for _ in range(c.n(5, 40)):
            out.append(('builtin', dict(d=g.prio3(v, budget=0.0025, shares=2), wide=True)))
    for i in range(c.n(600, 6000)):
        out.append(('generated', dict(f=g.pick(['Field64', 'Field96', 'Field128']), seed=g.r.getrandbits(48), cost=cost,
                                      deg=g.pick([2, 3, 5, 7]), calls=g.pick([3, 8, 12, 33 if i % 10 == 0 else 16]))))
    for i in range(c.n(12, 100)):
        out.append(('generated', dict(f=g.pick(['Field64', 'Field96', 'Field128']), seed=g.r.getrandbits(48), cost=20_000, deg=2, calls=2, wide=True)))
    for v in ('sumvec', 'hist', 'mhot', 'mp'):
        for i in range(c.n(5, 40)):
            out.append(('builtin', dict(d=dict(g.wide(v, 500 if i else 3000)), wide=True, vec=True)))
        for lo, hi in ((66, 127), (128, 130), (131, 254)):
            for _ in range(c.n(1, 5)):
                out.append(('builtin', dict(d=g.long(v, lo, hi), wide=True, vec=True)))
    return out


def setup(g, case):
    """(name, F, valid object, model-level valid vector, is_valid function, declared lengths)"""
    p = case['p']
    if case['kind'] == 'builtin':
        d = dict(p['d'])
        fname = d.pop('f', d.get('field', 'Field128'))
        if d['v'] == 'mp':
            fname = d['field']
        d2 = dict(d, field=fname)
        C = gen.circuit(d2)
        obj = gen.build_valid(d2, fname)
        vec = C.encode(g.meas(d2))
        return str(d2), ref.FIELDS[fname], obj, vec, C.valid, C.proof_len(), C.verifier_len(), C.jr_len, d2, C
    plan = circ.Plan(p['f'], p['seed'], max_degree=p['deg'], max_calls=p['calls'])
    k = 0
    while circ.cost(plan) > p['cost']:
        k += 1
        plan = circ.Plan(p['f'], p['seed'] + k, max_degree=max(1, p['deg'] - k), max_calls=max(2, p['calls'] - 2 * k))
    return (f"generated({p['f']},{p['seed']},{plan.gadgets})", plan.F, plan.build(), list(plan.m0), plan.valid,
            plan.proof_len(), plan.verifier_len(), plan.jr_len, None, plan)


def run(case, rng, mon):
    g = G(rng)
    R = gen.repo()
    name, F, valid, vec, is_valid, plen, vlen, jrl, _, _ = setup(g, case)
    p = F.p
    f = gen.fld(F.name)
    assert is_valid(vec)
    flp = R.bb.FlpBBCGGI19(valid)

    def el(v):
        return [f(x) for x in v]
    mon.eq((flp.MEAS_LEN, flp.JOINT_RAND_LEN, flp.PROOF_LEN, flp.VERIFIER_LEN), (len(vec), jrl, plen, vlen), f'{name}: declared lengths')

    def rnd(n, degenerate=0.25):
        x = g.r.random()
        if x < degenerate:
            return g.pick([[0] * n, [1] * n, [p - 1] * n, [g.fe(p) for _ in range(n)]])
        return [g.r.randrange(p) for _ in range(n)]

    for rep in range(1 if case['p'].get('vec') else 2):
        prand, jr = rnd(flp.PROVE_RAND_LEN), rnd(jrl)
        proof = gen.ints(flp.prove(el(vec), el(prand), el(jr)))
        mon.eq(len(proof), plen, f'{name}: proof length')
        qr = rnd(flp.QUERY_RAND_LEN, 0.1)

        def query(m, pr, k):
            return gen.ints(flp.query(el(m), el(pr), el(qr), el(jr), k))
        try:
            whole = query(vec, proof, 1)
        except ValueError:
            # a refused query point; only roots of unity may be refused (checked in C16)
            tail = qr[len(qr) - len(valid.GADGETS):]
            mon.ok(any(pow(t, ref.pow2(1 + k), p) == 1 for t, k in zip(tail, valid.GADGET_CALLS)),
                   lambda: f'{name}: safe query randomness {qr[:6]} refused')
            mon.ev('refused_points')
            qr = [g.r.randrange(p) for _ in qr]
            whole = query(vec, proof, 1)
        mon.eq(len(whole), vlen, f'{name}: verifier length')
        mon.ok(flp.decide(el(whole)) is True, lambda: f'{name}: valid measurement {vec[:8]} rejected (prove_rand {prand[:3]}, joint {jr[:3]}, query {qr[:3]})')
        mon.ev('accepted')
        n = g.pick([2, 2, 3, 4, 5, 7, 16])
        if case['p'].get('vec'):
            n = g.pick([2, 3])
            mon.ev('large_circuits')
        elif case['p'].get('wide'):
            n = g.pick([64, 100, 127, 128, 129, 200, 255, 256, 257, g.r.randint(17, 300)])
            mon.ev('many_shares')
        ms, ps = circ.additive(g, p, vec, n), circ.additive(g, p, proof, n)
        vs = [query(a, b, n) for a, b in zip(ms, ps)]
        tot = circ.lincomb(p, [1] * n, vs)
        mon.ok(tot == whole, lambda: f'{name}: verifiers of {n} additive shares add up to {tot[:4]}, unshared {whole[:4]}')
        mon.ok(flp.decide(el(tot)) is True, lambda: f'{name}: valid measurement rejected from {n} shares')
        mon.ev('additive_linear')
        k = g.r.randint(2, 5)
        w = circ.affine_weights(g, p, k)
        vs = [query(a, b, 1) for a, b in zip(circ.affine(g, F, vec, w), circ.affine(g, F, proof, w))]
        tot = circ.lincomb(p, w, vs)
        mon.ok(tot == whole, lambda: f'{name}: affine combination of {k} verifiers gives {tot[:4]}, unshared {whole[:4]}')
        mon.ev('affine_linear')
        mon.case(name, str(vec), n, k, rep)
        # linearity does not depend on validity
        if n > 16:
            n = g.pick([3, n])
        av, ap = [g.fe(p) for _ in vec], [g.fe(p) for _ in proof]
        whole = query(av, ap, 1)
        ms, ps = circ.additive(g, p, av, n), circ.additive(g, p, ap, n)
        tot = circ.lincomb(p, [1] * n, [query(a, b, n) for a, b in zip(ms, ps)])
        mon.ok(tot == whole, lambda: f'{name}: query is not linear on arbitrary data ({n} shares)')
        mon.ev('arbitrary_linear')
    # run_flp driver with its own randomness
    mon.ok(R.flp.run_flp(flp, el(vec), g.pick([1, 2, 3, 5, n])) is True, lambda: f'{name}: run_flp rejects {vec[:8]}')
    mon.ev('generated_circuits' if case['kind'] == 'generated' else 'builtin_circuits')
    mon.sample(case['kind'], circuit=name, measurement=vec[:6], shares=n)
