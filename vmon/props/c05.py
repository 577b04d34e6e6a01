"""C05: Poplar1 never accepts a report that is not one-hot."""
from vmon import gen, ref
from vmon.gen import G

RULE = ('One case is a malicious Poplar1 client (model based) attacking one level and prefix set: data values other than one, '
        'several hot children with chosen sums, wrong authenticators, inconsistent or shifted correlated randomness, random '
        'corrections, programs tuned to constant or key-independent verification randomness. If both aggregators finish, the '
        'oracle adds their output shares, which must be all zero or one-hot with value one. sketch cases replace the key evaluations by shares of '
        'arbitrary vectors, measure the influence of each candidate and submit vectors fitted to it. Non-trivial: distinct (bits, '
        'level, attack, values) in which the shared vector really was not one-hot, as computed by the model.')
NEED = dict(not_one_hot_attacks=500, rejected=500, control_accepted=200, hot_beyond_256=3, single_candidate=60)
ASSUMPTIONS = ['soundness error of the sketch (about 2^-60 per attempt) does not occur']


def cases(c):
    out = []
    g = G(c.rng)
    modes = ['value', 'value', 'value_auth', 'two_hot', 'two_hot_guess', 'two_hot_eq', 'random_cw', 'corr', 'corr_level',
             'other_level', 'negone', 'zero', 'key_mix']
    for bits in list(range(1, 13)) + [16, 20, 32, 33, 64]:
        for lv in sorted({0, bits - 1, max(0, bits - 2), bits // 2} | (set(range(bits)) if bits <= 8 else set())):
            for m in modes:
                for _ in range(c.n(1, 8)):
                    out.append(('attack', dict(bits=bits, level=lv, mode=m)))
    for bits in (129, 257, 300, g.r.randint(500, 600), g.r.randint(1025, 1100), 2050):
        for lv in (bits - 1, bits - 2, 128):
            for m in ('value', 'two_hot'):
                out.append(('attack', dict(bits=bits, level=lv, mode=m)))
    for w in g.words(60, 9000):
        for m in ('value', 'two_hot', 'corr'):
            bits = w + g.pick([1, 2, 20])
            out.append(('attack', dict(bits=bits, level=bits - g.pick([1, 2]), mode=m)))
        bits = w + g.pick([1, 2, 20])
        out.append(('sketch', dict(bits=bits, level=bits - g.pick([1, 2]), k=3)))
    for w in g.words(10, 4000):
        for m in ('value', 'two_hot'):
            out.append(('attack', dict(bits=g.pick([14, 15]), level=13, mode=m, k=w + g.r.randint(1, 2 + w // 10))))
        if w < 1400:
            out.append(('sketch', dict(bits=g.pick([14, 15]), level=13, k=w + g.r.randint(1, 2 + w // 10))))
    for k in (40, 129, 257, 300, 520):
        for m in ('value', 'two_hot', 'negone', 'value_auth', 'corr', 'random_cw'):
            for _ in range(c.n(1, 4)):
                out.append(('attack', dict(bits=g.pick([10, 11, 13]), level=9, mode=m, k=k)))
    for k in (1030, 1100, 2060, 4110):
        for m in ('value', 'two_hot'):
            for _ in range(c.n(1, 4)):
                out.append(('attack', dict(bits=g.pick([14, 15]), level=13, mode=m, k=k)))
    for k in (1, 2, 3, 5, 17, 33, 65, 80, 101, 129, 150, 201, 257, 260, 300, 400, 520, 1030, 1100) + (() if c.tier == 'quick' else (700, 2060)):
        for lv in ((g.pick([10, 11]), g.pick([12, 16, 40])) if k < 500 else (g.pick([14, 20]),)):
            bits = lv + g.pick([1, 1, 2, 9])
            out.append(('sketch', dict(bits=bits, level=lv, k=k)))
    for bits in range(1, c.n(24, 60)):
        out.append(('sketch', dict(bits=bits, level=g.r.randrange(bits), k=g.r.randint(1, 12))))
    for bits in (130, 257, 258, 300, g.r.randint(500, 600), g.r.randint(1025, 1100), 2050):
        for lv in (bits - 1, bits - 2, 127, 128, 129):
            out.append(('sketch', dict(bits=bits, level=lv, k=g.r.randint(2, 6))))
    for _ in range(c.n(100, 2000)):
        bits = g.r.randint(1, 12)
        out.append(('attack', dict(bits=bits, level=g.r.randrange(bits), mode=g.pick(modes))))
    return out


def raw_program(M, alpha, ctx, nonce, rand, data, auth_add=None, hook=None):
    return M.shard(ctx, alpha, nonce, rand, data, auth_add, hook)


def one_hot(v, p):
    nz = [x for x in v if x]
    return not nz or nz == [1]


def sketch(g, P, mon):
    """Attacks the sketch alone: the evaluations of the keys are replaced by shares of any vector the client likes (with
    authenticators it knows), first to learn how each candidate enters the first message, then to submit vectors fitted to
    what was learnt: candidates without influence, candidates with equal influence, influence that does not depend on key,
    report or level."""
    bits, lv, k = P['bits'], P['level'], P['k']
    v, M = gen.build(dict(v='poplar1', bits=bits)), ref.RPoplar1(bits)
    F = M.fld(lv)
    p = F.p
    f = v.idpf.current_field(lv)
    ctx, alpha = g.ctx(), g.bits(bits)
    pf = tuple(sorted(set(g.prefixes(lv, [alpha], k)) | {alpha[:lv + 1]}))
    n = len(pf)
    ap = (lv, pf)
    shares, calls = [None, None], []

    def stub(agg_id, *a, **kw):
        calls.append(agg_id)
        return [[f(x), f(y)] for x, y in shares[agg_id]]
    v.idpf.eval = stub

    def report():
        # a fresh nonce each time: two reports with the same nonce share their verification randomness
        nonce, rand = g.r.randbytes(16), g.r.randbytes(M.rand_size)
        pub, ins = gen.shard(v, ctx, alpha, nonce, rand)
        x = ref.RXofTS(rand[96:128], M.d(1, ctx), nonce)
        ks = ref.vec_from(x, ref.F64, bits - 1) + ref.vec_from(x, ref.F255, 1)
        return nonce, pub, ins, ks[lv]

    def learn(vk, rep):
        nonce, pub, ins, _ = rep
        dp, di = v.decode_public_share(pub), v.decode_input_share(0, ins[0])

        def first(vec):
            shares[0] = vec
            return v.verify_init(vk, ctx, 0, ap, nonce, dp, di)[1][0].int()
        zero = [(0, 0)] * n
        z = first(zero)
        return [(first(zero[:i] + [(1, 0)] + zero[i + 1:]) - z) % p for i in range(n)]

    def submit(vk, rep, vec, why):
        nonce, pub, ins, kk = rep
        a = [g.r.randrange(p) for _ in range(2 * n)]
        shares[0] = list(zip(a[:n], a[n:]))
        shares[1] = [((x - s) % p, (x * kk - t) % p) for x, (s, t) in zip(vec, shares[0])]
        try:
            got = gen.total(gen.broadcast(v, vk, ctx, ap, nonce, pub, ins), p)
        except Exception:
            got = None
        if why == 'control':
            mon.ev('sketch_control_accepted', int(got is not None))
            return
        mon.ev('sketch_attacks')
        mon.ok(got is None or one_hot(got, p),
               lambda: f'bits={bits} level={lv} {n} candidates: shares of {[(i, x) for i, x in enumerate(vec) if x]} accepted ({why})')
        mon.case(bits, lv, 'sketch', why, str(vec))

    vk, rep = g.r.randbytes(32), report()
    vec = [0] * n
    vec[g.r.randrange(n)] = 1
    submit(vk, rep, vec, 'control')
    if not calls:
        mon.ev('sketch_not_reached')
        return
    r = learn(vk, rep)
    mon.ev('coefficients_learnt', n)

    def two(i, j, a, b):
        vec = [0] * n
        vec[i], vec[j] = a % p, b % p
        return vec
    at = {}
    for i, x in enumerate(r):
        if x in at:
            c = g.r.randrange(2, p)
            submit(vk, rep, two(at[x], i, c, 1 - c), 'equal influence')
        at.setdefault(x, i)
        if x == 0:
            submit(vk, rep, two(i, i, 2, 2), 'no influence')
    for q in (1, 2, 7, 10, 16, 32, 50, 64, 100, 128, 200, 255, 256):
        if q < n:
            i = g.r.randrange(n - q)
            submit(vk, rep, two(i, i + q, 1, -1), f'distance {q}')

    def fitted(r):
        """a e_i + b e_j with (a r_i + b r_j)^2 = a r_i^2 + b r_j^2."""
        for _ in range(20):
            i, j = (g.r.sample(range(n), 2)) if n > 1 else (0, 0)
            a = g.r.randrange(2, p)
            if i == j:
                return None
            roots = ref.quad_roots(r[j] * r[j] % p, (2 * a * r[i] * r[j] - r[j] * r[j]) % p, (a * a - a) * r[i] * r[i] % p, p)
            if roots and r[j]:
                return two(i, j, a, g.pick(roots))
        return None
    # learnt with another key, from another report, at this level: fits only if the influence is the same here
    x = fitted(r)
    if x:
        submit(g.r.randbytes(32), rep, x, 'fitted under another key')
        submit(vk, report(), x, 'fitted with another report')
        mon.ev('fitted')
        shift = r[1:] + r[:1]
        y = fitted(shift)
        if y:
            submit(vk, rep, y, 'fitted to shifted coefficients')
    for s in (list(range(1, n + 1)), [pow(2, i, p) for i in range(n)], [1] * n):
        x = fitted(s)
        if x:
            submit(vk, rep, x, 'fitted to constants')
    for _ in range(3):
        submit(vk, rep, [g.fe(p) for _ in range(n)] if n > 1 else [g.r.randrange(2, p)], 'random vector')
    mon.sample('sketch', bits=bits, level=lv, candidates=n)


def run(case, rng, mon):
    g = G(rng)
    if case['kind'] == 'sketch':
        return sketch(g, case['p'], mon)
    bits, lv, mode = (case['p'][k] for k in ('bits', 'level', 'mode'))
    d = dict(v='poplar1', bits=bits)
    v, M = gen.build(d), ref.RPoplar1(bits)
    F = M.fld(lv)
    p = F.p
    ctx, vk, nonce, rand = g.ctx(), g.r.randbytes(32), g.nonce(), g.r.randbytes(M.rand_size)
    alpha = g.bits(bits)
    k = case['p'].get('k')
    if k and g.r.random() < 0.7:
        alpha = (True,) * 6 + alpha[6:]         # near the end of the candidates
    pf = g.prefixes(lv, [alpha], k or g.r.randint(1, 6))
    sib = alpha[:lv] + (not alpha[lv],)
    pf = tuple(sorted(set(pf) | {alpha[:lv + 1], sib}))
    if not mode.startswith('two_hot') and not k and g.r.random() < 0.35:
        pf = (alpha[:lv + 1],) if g.r.random() < 0.8 else tuple(q for q in pf if q != sib)
    ap = (lv, pf)

    # control
    pub, ins = M.shard(ctx, alpha, nonce, rand)
    try:
        outs = gen.broadcast(v, vk, ctx, ap, nonce, pub, ins)
        mon.eq(gen.total(outs, p), [int(q == alpha[:lv + 1]) for q in pf], 'honest output')
        mon.ev('control_accepted')
    except Exception as e:
        if type(e).__name__ == 'Violation':
            raise
        mon.ev('control_failed')

    data, auth, hook = [1] * bits, [0] * bits, None
    irand = rand[:32]
    x = ref.RXofTS(rand[96:128], M.d(1, ctx), nonce)
    ks = ref.vec_from(x, ref.F64, bits - 1) + ref.vec_from(x, ref.F255, 1)
    k_lv = ks[lv]
    if mode in ('value', 'negone', 'zero', 'value_auth'):
        b = {'negone': p - 1, 'zero': 0}.get(mode) if mode in ('negone', 'zero') else \
            g.pick([2, 3, p - 1, p - 2, (p + 1) // 2, 1 << 32, g.r.randrange(2, p), g.r.randrange(2, p)]) % p
        data[lv] = b
        if mode != 'value_auth' or g.r.random() < 0.5:
            auth[lv] = (b - 1) * k_lv % p
        else:
            auth[lv] = g.fe(p)
        pub, ins = raw_program(M, alpha, ctx, nonce, rand, data, auth)
    elif mode == 'other_level':
        o = g.r.randrange(bits)
        data[o] = 2
        auth[o] = ks[o]
        pub, ins = raw_program(M, alpha, ctx, nonce, rand, data, auth)
    elif mode in ('corr', 'corr_level'):
        o = lv if mode == 'corr' else g.r.randrange(bits)
        da, db = g.fe(p), g.fe(p)
        data[lv] = g.pick([1, 2, 5])
        auth[lv] = (data[lv] - 1) * k_lv % p

        def hook(l, A, B):
            q = M.fld(l).p
            return ((A + da) % q, (B + db) % q) if l == o else (A, B)
        pub, ins = raw_program(M, alpha, ctx, nonce, rand, data, auth, hook)
    elif mode in ('two_hot', 'two_hot_eq', 'two_hot_guess', 'random_cw', 'key_mix'):
        pub, ins = M.shard(ctx, alpha, nonce, rand)
        cws = M.idpf.dec_public(pub)
        if mode == 'key_mix':
            i = [M.dec_input(b) for b in ins]
            kk = g.pick([(i[0][0], i[0][0]), (i[1][0], i[0][0]), (i[1][0], i[1][0])])
            ins = [M.enc_input((kk[a],) + i[a][1:]) for a in (0, 1)]
        elif mode == 'random_cw':
            o = g.r.randint(0, lv)
            scw, t, w = cws[o]
            G2 = M.fld(o)
            cws[o] = g.pick([(g.r.randbytes(16), t, w), (scw, [1 - t[0], t[1]], w), (scw, [t[0], 1 - t[1]], w),
                             (scw, t, [g.r.randrange(G2.p) for _ in w]), (bytes(16), [0, 0], [0, 0]),
                             (scw, t, [w[0], g.r.randrange(G2.p)])])
            pub = M.idpf.enc_public(cws)
        else:
            # corrupt the seed correction at the target level: both children hot
            scw, t, w = cws[lv]
            cws[lv] = (g.r.randbytes(16), t, [0, 0])
            keys = [irand[:16], irand[16:]]
            two = [alpha[:lv + 1], sib]
            tt = None
            for tt in ([0, 0], [0, 1], [1, 0], [1, 1]):
                cws[lv] = (cws[lv][0], tt, [0, 0])
                # want the control bits of the two parties to differ at both children
                base = [M.idpf.eval(b, cws, keys[b], lv, two, ctx, nonce) for b in (0, 1)]
                cws[lv] = (cws[lv][0], tt, [1, 1])
                plus = [M.idpf.eval(b, cws, keys[b], lv, two, ctx, nonce) for b in (0, 1)]
                s0 = [[(base[0][c][e] + base[1][c][e]) % p for e in (0, 1)] for c in (0, 1)]
                s1 = [[(plus[0][c][e] + plus[1][c][e]) % p for e in (0, 1)] for c in (0, 1)]
                sl = [(s1[c][0] - s0[c][0]) % p for c in (0, 1)]     # slope +-1 or 0
                if sl[0] and sl[1]:
                    break
            w = [0, 0]
            # data at child c: s0[c][0] + sl[c]*w0 ; authenticator: s0[c][1] + sl[c]*w1
            idx = [pf.index(q) for q in two]
            if mode == 'two_hot':
                w[0] = (1 - s0[0][0]) * pow(sl[0], -1, p) % p if sl[0] else g.r.randrange(p)
                w[1] = g.r.randrange(p)
            else:
                if mode == 'two_hot_eq':
                    r = [g.r.randrange(1, p)] * 2
                else:
                    gk = g.pick([bytes(32), bytes(range(32)), nonce * 2])
                    rr = ref.vec_from(ref.RXofTS(gk, M.d(4, ctx), nonce + lv.to_bytes(2, 'big')), F, len(pf))
                    r = [rr[i] for i in idx]
                # choose w0 so that (sum d r)^2 = sum d r^2
                a1 = (s0[0][0] * r[0] + s0[1][0] * r[1]) % p
                b1 = (sl[0] * r[0] + sl[1] * r[1]) % p
                a2 = (s0[0][0] * r[0] ** 2 + s0[1][0] * r[1] ** 2) % p
                b2 = (sl[0] * r[0] ** 2 + sl[1] * r[1] ** 2) % p
                roots = ref.quad_roots(b1 * b1 % p, (2 * a1 * b1 - b2) % p, (a1 * a1 - a2) % p, p)
                w[0] = g.pick(roots) if roots else g.r.randrange(p)
                zx = (a1 + b1 * w[0]) % p
                c0 = (s0[0][1] * r[0] + s0[1][1] * r[1]) % p
                w[1] = (k_lv * zx - c0) * pow(b1, -1, p) % p if b1 else g.r.randrange(p)
                mon.ev('tuned_to_guessed_randomness', 1 if roots and b1 else 0)
            cws[lv] = (cws[lv][0], tt, w)
            pub = M.idpf.enc_public(cws)
    dec = [M.dec_input(b) for b in ins]
    cw = M.idpf.dec_public(pub)
    sh = [M.idpf.eval(b, cw, dec[b][0], lv, pf, ctx, nonce) for b in (0, 1)]
    vec = [(x0[0] + x1[0]) % p for x0, x1 in zip(*sh)]
    bad = not one_hot(vec, p)
    if bad and k and any(vec[256:]):
        mon.ev('hot_beyond_256')
    if bad:
        mon.ev('not_one_hot_attacks')
        mon.ev('single_candidate', int(len(pf) == 1))
    mon.ev('mode_' + mode)
    try:
        outs = gen.broadcast(v, vk, ctx, ap, nonce, pub, ins)
        got = gen.total(outs, p)
    except Exception:
        mon.ev('rejected')
        got = None
    if got is not None:
        mon.ok(one_hot(got, p), lambda: f'bits={bits} level={lv} prefixes={pf}: {mode} attack accepted, outputs add up to {got}')
        mon.ev('accepted_one_hot')
    if bad:
        mon.case(bits, lv, mode, str(vec), pub)
        mon.sample(mode, bits=bits, level=lv, shared_vector=vec, accepted=got is not None)
