"""C16: the proof system rejects false statements and unsafe query points."""
from vmon import attacks, circ, gen, ref
from vmon.gen import G
from vmon.props import c15

LEVEL = 'exploration'
RULE = ('One case takes a circuit as in C15. Invalid measurements (by the specification of the circuit, evaluated on plain '
        'integers) with the prover\'s proof, with proofs of another measurement or with forged gadget outputs, and honest proofs '
        'with one element changed or with their gadget polynomials changed, must be rejected when the verifier is assembled '
        'from shares. The weight of every position in the reduced circuit output is measured in two draws of the randomness; where '
        'positions turn out to weigh nothing or to keep their ratio, the vector that exploits it must be rejected. Every test point that is one of the interpolation points must be refused by every share holder. '
        'Non-trivial: distinct (circuit, measurement, alteration).')
NEED = dict(invalid_rejected=2500, altered_proof_rejected=6000, points_refused=2500, forged_rejected=500, control_accepted=400, big_rejected=150, long_rejected=18, wide_rejected=30, circuits_probed=12)
ASSUMPTIONS = ['soundness errors (below 2^-50 each) do not occur; query and joint randomness are uniform']


def cases(c):
    g = G(c.rng)
    out = [x for x in c15.cases(c, budget=0.012, cost=150_000) if not x[1].get('wide') and g.r.random() < (0.65 if c.tier == 'quick' else 1)]
    for v in gen.PRIO3[1:]:
        for _ in range(c.n(7, 100)):
            for _ in range(200):
                d = g.prio3(v, budget=0.3, shares=2)
                if gen.circuit(d).meas_len > 32 and gen.est(d) > 0.012:
                    out.append(('builtin', dict(d=d, big=True)))
                    break
    for v in ('sumvec', 'hist', 'mhot', 'mp'):
        for lo, hi in ((66, 127), (128, 130), (131, 254)):
            for _ in range(c.n(1, 5)):
                out.append(('builtin', dict(d=g.long(v, lo, hi), big=True, lean=True)))
    for _ in range(c.n(12, 160)):
        out.append(('generated', dict(f=g.pick(['Field64', 'Field96', 'Field128']), seed=g.r.getrandbits(48), cost=3_000_000,
                                      deg=g.pick([2, 3]), calls=g.pick([33, 64, 70]), big=True)))
    for v in ('sumvec', 'hist', 'mhot', 'mp'):
        for i in range(c.n(5, 40)):
            out.append(('builtin', dict(d=g.wide(v, 800 if i else 3000), big=True, vec=True)))
    for v in ('sum', 'sumvec', 'hist', 'mhot', 'mp'):
        for _ in range(c.n(2, 12)):
            out.append(('positions', dict(d=attacks.narrow(g, v, True))))
        for _ in range(c.n(3, 20)):
            out.append(('positions', dict(d=attacks.narrow(g, v, False), fast=True)))
    return out


def positions(g, case, mon):
    d = case['p']['d']
    C = gen.circuit(d)
    F = C.F
    f = gen.fld(F.name)
    flp = gen.repo().bb.FlpBBCGGI19(gen.build_valid(d, F.name))

    def uni(n):
        return [f(g.r.randrange(F.p)) for _ in range(n)]

    def rands():
        return uni(flp.JOINT_RAND_LEN), uni(flp.QUERY_RAND_LEN)
    found = attacks.dependencies(g, d, C, flp, f, rands, case['p'].get('fast'))
    mon.ev('circuits_not_probed' if found is None else 'circuits_probed')
    for why, x in found or []:
        jr, qr = rands()
        e = [f(a) for a in x]
        r = flp.decide(flp.query(e, flp.prove(e, uni(flp.PROVE_RAND_LEN), jr), qr, jr, 1))
        mon.ok(not r, lambda: f'{d}: invalid measurement {x} accepted with its own proof; {why}')
        mon.ev('invalid_rejected')
    mon.case(str(d), 'positions')
    mon.sample('positions', d=d, exploits=len(found or []))


def late(g, d, C, p, t):
    """A valid encoding with one element wrong, late in the vector."""
    x = C.encode(g.meas(d))
    n = len(x)
    for _ in range(100):
        y = list(x)
        i = [n - 1, g.r.randrange(n * 3 // 4, n), g.r.randrange(n // 2, n)][t]
        y[i] = attacks.bad_value(g, p)
        if not C.valid(y):
            return y
    return y


def run(case, rng, mon):
    g = G(rng)
    if case['kind'] == 'positions':
        return positions(g, case, mon)
    R = gen.repo()
    name, F, valid, vec, is_valid, plen, vlen, jrl, d, C = c15.setup(g, case)
    p = F.p
    f = gen.fld(F.name)
    flp = R.bb.FlpBBCGGI19(valid)

    def el(v):
        return [f(x) for x in v]

    def uni(n):
        return [g.r.randrange(p) for _ in range(n)]

    def verdict(m, proof, jr, qr=None):
        n = g.pick([2, 2, 2, 3, 4])
        qr = qr or uni(flp.QUERY_RAND_LEN)
        ms, ps = circ.additive(g, p, m, n), circ.additive(g, p, proof, n)
        vs = [gen.ints(flp.query(el(a), el(b), el(qr), el(jr), n)) for a, b in zip(ms, ps)]
        r = flp.decide(el(circ.lincomb(p, [1] * n, vs)))
        mon.ok(r is True or r is False, f'{name}: decide() returned {r!r}')
        return r

    big = case['p'].get('big')
    prand, jr = uni(flp.PROVE_RAND_LEN), uni(jrl)
    proof = gen.ints(flp.prove(el(vec), el(prand), el(jr)))
    mon.ok(verdict(vec, proof, jr), lambda: f'{name}: honest proof rejected')
    mon.ev('control_accepted')
    # altered proofs of a true statement
    idx = list(range(plen)) if plen <= 40 else sorted(set([0, 1, plen - 1, plen - 2] + g.r.sample(range(plen), 24)))
    lean, wide = case['p'].get('lean'), case['p'].get('vec')
    if big:
        idx = g.r.sample(idx, 2 if lean or wide else min(5, len(idx)))
    for i in idx:
        bad = list(proof)
        bad[i] = (bad[i] + g.pick([1, p - 1, g.r.randrange(1, p)])) % p
        mon.ok(not verdict(vec, bad, jr), lambda: f'{name}: proof with element {i} of {plen} altered is accepted')
        mon.ev('altered_proof_rejected')
        mon.case(name, 'proof', i)
    # gadget polynomials replaced altogether, seeds kept
    o, spans = 0, []
    for gad, calls in zip(valid.GADGETS, valid.GADGET_CALLS):
        o += gad.ARITY
        n = gad.DEGREE * (ref.pow2(1 + calls) - 1) + 1
        spans.append((o, o + n))
        o += n
    for a, b in spans[:0] if lean else spans:
        for how in ('zero', 'random', 'shift', 'sumzero') if not big else (g.pick(['zero', 'random', 'shift']), 'sumzero')[:1 if wide else 2]:
            bad = list(proof)
            if how == 'zero':
                bad[a:b] = [0] * (b - a)
            elif how == 'random':
                bad[a:b] = uni(b - a)
            elif how == 'shift':
                bad[a:b] = bad[a + 1:b] + bad[a:a + 1]
            else:
                i, j = g.r.randrange(a, b), g.r.randrange(a, b)
                dlt = g.r.randrange(1, p)
                bad[i], bad[j] = (bad[i] + dlt) % p, (bad[j] - dlt) % p
            if bad != proof:
                mon.ok(not verdict(vec, bad, jr), lambda: f'{name}: gadget polynomial {how} is accepted')
                mon.ev('altered_proof_rejected')
                mon.case(name, 'poly', how, a)
    # false statements
    for t in range(3 if lean else 4 if wide else 6):
        if big and d is not None and t < (2 if wide else 3):
            label, x = 'late', late(g, d, C, p, t)
        elif d is not None:
            label, x = attacks.invalid_vector(g, d, C)
        else:
            label = g.pick(['one', 'one', 'swap', 'random', 'neg'])
            x = list(vec)
            i = g.r.randrange(len(x))
            if label == 'one':
                x[i] = (x[i] + g.pick([1, p - 1, g.r.randrange(1, p)])) % p
            elif label == 'swap':
                x = x[1:] + x[:1]
            elif label == 'neg':
                x = [-y % p for y in x]
            else:
                x = uni(len(x))
        if is_valid(x):
            mon.ev('happens_to_be_valid')
            continue
        jr2 = uni(jrl)
        own = gen.ints(flp.prove(el(x), el(uni(flp.PROVE_RAND_LEN)), el(jr2)))
        if big:
            mon.ev('big_rejected')
        mon.ok(not verdict(x, own, jr2), lambda: f'{name}: invalid measurement {x[:10]} ({label}) with its own proof is accepted')
        mon.ev('invalid_rejected')
        if lean:
            mon.ev('long_rejected')
            continue
        if wide:
            mon.ev('wide_rejected')
            if t:
                continue
        other = gen.ints(flp.prove(el(vec), el(prand), el(jr2)))
        mon.ok(not verdict(x, other, jr2), lambda: f'{name}: invalid measurement {x[:10]} with the proof of a valid one is accepted')
        mon.ev('invalid_rejected')
        mon.case(name, 'invalid', str(x))
        if d is not None and not (big and t > 0):
            forged = attacks.forge_outputs(g, C, x, own, jr2)
            if forged != own:
                mon.ok(not verdict(x, forged, jr2), lambda: f'{name}: invalid {x[:10]} with forged gadget outputs is accepted')
                mon.ev('forged_rejected')
            # consistent at guessable points only
            for pt in (([0] * flp.QUERY_RAND_LEN, [2] * flp.QUERY_RAND_LEN, [1] * flp.QUERY_RAND_LEN) if not big else ([2] * flp.QUERY_RAND_LEN,)):
                ff = attacks.fix_at(C, x, forged, pt, jr2, g=g)
                if ff != own:
                    mon.ok(not verdict(x, ff, jr2), lambda: f'{name}: invalid {x[:10]} forged for point {pt[-1]} is accepted')
                    mon.ev('forged_rejected')
        elif d is None:
            # forged: push the difference of the last watched gadget output into the proof
            mon.ok(not verdict(x, uni(plen), jr2), lambda: f'{name}: invalid {x[:10]} with a random proof is accepted')
            mon.ok(not verdict(x, [0] * plen, jr2), lambda: f'{name}: invalid {x[:10]} with the zero proof is accepted')
            mon.ev('forged_rejected', 2)
    # unsafe query points
    ng = len(valid.GADGETS)
    extra = flp.QUERY_RAND_LEN - ng
    for gi in range(ng):
        P = ref.pow2(1 + valid.GADGET_CALLS[gi])
        w = F.root(P)
        ks = range(P) if P <= 16 else sorted({0, 1, 2, P // 2, P - 1, valid.GADGET_CALLS[gi], g.r.randrange(P), g.r.randrange(P)})
        for k in ks:
            qr = uni(flp.QUERY_RAND_LEN)
            qr[extra + gi] = pow(w, k, p)
            n = g.pick([1, 2, 3])
            ms, ps = circ.additive(g, p, vec, n), circ.additive(g, p, proof, n)
            i = g.r.randrange(n)
            mon.raises(f'{name}: query at test point {k} of {P} of gadget {gi} by share {i} of {n}',
                       lambda: flp.query(el(ms[i]), el(ps[i]), el(qr), el(jr), n))
            mon.ev('points_refused')
            mon.case(name, 'point', gi, k)
    mon.sample(case['kind'], circuit=name, proof_len=plen)
