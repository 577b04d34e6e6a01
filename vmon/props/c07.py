"""C07: the IDPF shares exactly the programmed point function."""
from vmon import gen, ref
from vmon.gen import G

RULE = ('One case generates an IDPF key pair for one string and programmed values and evaluates it, after encoding and decoding '
        'the public share, at several levels on prefix sets of every shape (full tree, on-path only, neighbours, random, '
        'reordered, subsets). The oracle adds the two parties\' values and compares with the programmed point function, and '
        'compares each prefix\'s share across sets and orders. Domain cases feed wrong lengths, duplicates, bad levels and '
        'parties, which must be refused. Non-trivial: distinct (parameters, string, level, prefix set).')
NEED = dict(evaluations_checked=600, on_path=400, off_path=1500, refusals=300, related_reports=300, many_prefixes=8)


def cases(c):
    out = []
    g = G(c.rng)
    for bits in range(1, 8):
        for vl in (1, 2, 3):
            for _ in range(c.n(4, 20)):
                out.append(('full', dict(bits=bits, vl=vl)))
    for bits in list(range(1, 70)) + [100, 127, 128, 129, 200, 255, 256, 257]:
        out.append(('sets', dict(bits=bits, vl=g.pick([1, 2, 3, 4, 5]))))
    for vl in list(range(1, 34)) + [64, 100, 128, 255, 256, 257]:
        out.append(('sets', dict(bits=g.pick([1, 2, 3, 9, 10]), vl=vl)))
    for k in (300, 520, 1030, 2060) if c.tier == 'quick' else (300, 520, 1030, 2060, 4100, 9000):
        for _ in range(2):
            out.append(('sets', dict(bits=g.pick([14, 15, 20]), vl=g.pick([1, 2, 3]), k=k)))
    for w in g.words(8, 6000):
        out.append(('sets', dict(bits=g.pick([14, 15]), vl=g.pick([1, 2, 3]), k=w + g.r.randint(1, 1 + w // 10))))
        out.append(('sets', dict(bits=g.pick([1, 2, 3]), vl=w + 1 if w < 1000 else 3)))
    for bits in [300, 520, 1030, 2060] + [w + g.pick([1, 2, 20]) for w in g.words(60, 9000)]:
        out.append(('sets', dict(bits=bits, vl=g.pick([1, 2]))))
    for _ in range(c.n(250, 2500)):
        out.append(('sets', dict(bits=g.size(1, 40, (1, 2, 8, 9, 16, 17, 32)), vl=g.size(1, 8))))
    for _ in range(c.n(60, 300)):
        out.append(('domain', dict(bits=g.size(1, 20), vl=g.size(1, 4))))
    return out


def run(case, rng, mon):
    g = G(rng)
    bits, vl = case['p']['bits'], case['p']['vl']
    R = gen.repo()
    f = R.idpf.IdpfBBCGGI21(vl, bits)
    alpha = g.bits(bits)
    ctx, nonce = g.ctx(), g.nonce()
    rand = g.blob(32) if g.r.random() < 0.3 else g.r.randbytes(32)
    P = [ref.F64.p] * (bits - 1) + [ref.F255.p]
    betas = [[g.fe(p) for _ in range(vl)] for p in P]
    F64, F255 = R.field.Field64, R.field.Field255
    bi = [[F64(x) for x in b] for b in betas[:-1]]
    bl = [F255(x) for x in betas[-1]]

    if case['kind'] == 'domain':
        def gen_(a=alpha, b=bi, l=bl, n=nonce, r=rand):
            return lambda: f.gen(a, b, l, ctx, n, r)
        for what, fn in [
                ('alpha too short', gen_(a=alpha[:-1])), ('alpha too long', gen_(a=alpha + (True,))),
                ('beta_inner too long', gen_(b=bi + [[F64(1)] * vl])),
                ('beta_leaf too long', gen_(l=bl + [F255(1)])), ('beta_leaf too short', gen_(l=bl[:-1])),
                ('nonce too short', gen_(n=nonce[:-1])), ('nonce too long', gen_(n=nonce + b'\0')), ('nonce empty', gen_(n=b'')),
                ('rand too short', gen_(r=rand[:-1])), ('rand too long', gen_(r=rand + b'\0')), ('rand empty', gen_(r=b''))]:
            mon.raises(f'gen with {what} (bits={bits}, value_len={vl})', fn)
            mon.ev('refusals')
        if bits > 1:
            k = g.r.randrange(bits - 1)
            mon.raises('gen with short beta_inner', gen_(b=bi[:-1]))
            for bad in (bi[k] + [F64(0)], bi[k][:-1]):
                mon.raises(f'gen with wrong value length at level {k}', gen_(b=bi[:k] + [bad] + bi[k + 1:]))
                mon.ev('refusals')
        pub, keys = f.gen(alpha, bi, bl, ctx, nonce, rand)
        lv = g.r.randrange(bits)
        pf = list(g.prefixes(lv, [alpha], 3))

        def ev(a=0, l=lv, q=pf):
            return lambda: f.eval(a, pub, keys[0], l, q, ctx, nonce)
        k = g.r.randrange(len(pf))
        bad = [('party -1', ev(a=-1)), ('party 2', ev(a=2)), ('party 256', ev(a=256)),
               ('level too large', ev(l=bits, q=[x + (False,) * (bits - lv) for x in pf])),
               ('negative level', ev(l=-1, q=[])), ('negative level', ev(l=-1, q=[()])),
               ('duplicate prefix', ev(q=pf + [pf[k]])), ('adjacent duplicate', ev(q=pf[:k + 1] + pf[k:])),
               ('duplicate first and last', ev(q=[pf[0]] + pf[1:] + [pf[0]])),
               ('prefix too long', ev(q=pf[:k] + [pf[k] + (True,)] + pf[k + 1:])),
               ('prefix too short', ev(q=pf[:k] + [pf[k][:-1]] + pf[k + 1:])),
               ('last prefix too long', ev(q=pf + [pf[0] + (False,)])),
               ('empty prefix', ev(q=pf + [()]))]
        for what, fn in bad:
            mon.raises(f'eval with {what} (bits={bits}, level={lv}, prefixes={pf})', fn)
            mon.ev('refusals')
        mon.case('domain', bits, vl, str(alpha), lv)
        mon.sample('domain', bits=bits, value_len=vl, level=lv)
        return

    check(g, case, f, P, alpha, betas, ctx, nonce, rand, mon)
    # a second report on the same object, sharing some of its inputs with the first
    for _ in range(2 if bits < 40 and vl < 20 and 'k' not in case['p'] else 0):
        a2 = list(alpha)
        for i in {g.r.randrange(bits), g.pick([0, bits - 1])}:
            a2[i] = not a2[i]
        new = g.kin((alpha, betas, ctx, nonce, rand), (tuple(a2), [[g.fe(p) for _ in range(vl)] for p in P], g.ctx(), g.nonce(), g.r.randbytes(32)), 0.5)
        check(g, case, f, P, *new, mon, True)
        mon.ev('related_reports')


def check(g, case, f, P, alpha, betas, ctx, nonce, rand, mon, again=False):
    bits, vl = case['p']['bits'], case['p']['vl']
    R = gen.repo()
    bi = [[R.field.Field64(x) for x in b] for b in betas[:-1]]
    bl = [R.field.Field255(x) for x in betas[-1]]
    pub, keys = f.gen(alpha, bi, bl, ctx, nonce, rand)
    mon.eq(len(keys), 2, 'number of keys')
    pub = f.decode_public_share(f.encode_public_share(pub))
    levels = range(bits) if case['kind'] == 'full' or bits <= 6 else \
        sorted({0, bits - 1, bits - 2, g.r.randrange(bits), g.r.randrange(bits)})
    if 'k' in case['p']:
        levels = [bits - 1, bits - 2]
    if again:
        levels = sorted(set(g.r.sample(levels, min(2, len(levels))) + [bits - 1]), reverse=g.r.random() < 0.7)
    for lv in levels:
        p = P[lv]
        if case['kind'] == 'full':
            sets = [gen.all_prefixes(lv + 1)]
        else:
            k = case['p'].get('k') if lv >= 13 else None
            s = g.prefixes(lv, [alpha], k or g.r.randint(1, 8))
            mon.ev('many_prefixes', int(len(s) > 250))
            sets = [s, (alpha[:lv + 1],)]
            q = list(s) + ([alpha[:lv + 1]] if alpha[:lv + 1] not in s else [])
            g.r.shuffle(q)
            sets.append(tuple(q))
            if not k:
                sets.append(tuple(reversed(s)))
            if g.r.random() < 0.2:
                sets.append(())
        seen = {}
        for q in sets:
            qq = list(q) if g.r.random() < 0.5 else q
            ys = [f.eval(b, pub, keys[b], lv, qq, ctx, nonce) for b in (0, 1)]
            mon.eq([len(y) for y in ys], [len(q), len(q)], 'number of values')
            for i, pf in enumerate(q):
                y0, y1 = gen.ints(ys[0][i]), gen.ints(ys[1][i])
                mon.eq((len(y0), len(y1)), (vl, vl), 'value length')
                on = pf == alpha[:lv + 1]
                want = betas[lv] if on else [0] * vl
                got = [(a + b) % p for a, b in zip(y0, y1)]
                mon.ok(got == want, lambda: f'bits={bits} value_len={vl} alpha={alpha} level={lv} prefix={pf} in set {q}: '
                                            f'shares add up to {got}, programmed {want}')
                if pf in seen:
                    mon.ok(seen[pf] == (y0, y1), lambda: f'share of prefix {pf} depends on the set/order {q}')
                    mon.ev('set_independence')
                seen[pf] = (y0, y1)
                mon.ev('on_path' if on else 'off_path')
            mon.ev('evaluations_checked')
            mon.case(bits, vl, str(alpha), lv, str(q))
    if bits < 12 and vl < 5:
        mon.sample(case['kind'], bits=bits, value_len=vl, alpha=alpha, betas=betas)
