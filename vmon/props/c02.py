"""C02: Prio3 never accepts an invalid measurement."""
from vmon import attacks, gen, ref
from vmon.gen import G

RULE = ('One case attacks one Prio3 instance with reports that secret-share an encoded vector outside the specified set '
        '(single bad element, cancelling pairs/triples, linear checks kept or broken alone, too heavy, non-binary digits), '
        'with honest, forged-output, key-guessing, random or partially bad proofs, chosen joint randomness parts and blinds. '
        'Where the weight of a position, measured in two draws of the randomness, is zero or in fixed ratio to another one, a '
        'vector exploiting that is submitted. '
        'Reports come from the model client and, independently, from the real client with its encoder replaced. The oracle '
        'demands that not all aggregators obtain output shares. Non-trivial: distinct (parameters, attack, vector).')
NEED = dict(attacks_rejected=1500, native_attacks=300, native_control_accepted=100, attack_jr_chosen=50, attack_jr_stale=15, attack_one_bad_proof=50, long_attacks=15, wide_attacks=30, instances_probed=12)
ASSUMPTIONS = ['soundness error of one proof (at most about 2^-50 per attempt with the sizes used) does not occur']


def cases(c):
    out = []
    g = G(c.rng)
    b = 0.12 if c.tier == 'quick' else 0.5
    for v in gen.PRIO3:
        for _ in range(c.n(80, 900)):
            out.append(('attack', dict(d=g.prio3(v, budget=b, max_shares=16), n=8)))
    # every index of small instances
    for d in (dict(v='sum', shares=2, max=11), dict(v='sum', shares=3, max=100), dict(v='sum', shares=2, max=255),
              dict(v='sumvec', shares=2, length=3, max=5, chunk=4), dict(v='sumvec', shares=3, length=2, max=7, chunk=3),
              dict(v='hist', shares=2, length=9, chunk=4), dict(v='hist', shares=3, length=8, chunk=3),
              dict(v='mhot', shares=2, length=7, max=4, chunk=4), dict(v='mhot', shares=2, length=9, max=9, chunk=5),
              dict(v='mhot', shares=2, length=17, max=17, chunk=g.r.randint(1, 6)), dict(v='mhot', shares=2, length=g.r.randint(64, 80), max=64, chunk=g.r.randint(2, 20)),
              dict(v='mp', shares=2, field='Field64', proofs=3, length=2, max=6, chunk=2)):
        for i in range(gen.circuit(d).meas_len):
            out.append(('index', dict(d=d, i=i)))
    for n in range(1, c.n(30, 120)):
        ch = g.chunk(n)
        out.append(('index', dict(d=dict(v='hist', shares=2, length=n, chunk=ch), i=n - 1)))
        m = g.r.randint(1, 300)
        d = dict(v='sum', shares=2, max=m)
        out.append(('index', dict(d=d, i=m.bit_length() - 1)))
    for k in [2, 3, 4, 5, 8, 255] if c.tier == 'quick' else list(range(2, 20)) + [100, 128, 255]:
        for i in sorted({0, 1, k // 2, k - 2, k - 1}):
            for s in (2, 3):
                d = dict(v='mp', shares=s, field=g.pick(['Field64', 'Field96', 'Field128']), proofs=k, length=2, max=3, chunk=2)
                out.append(('one_bad_proof', dict(d=d, i=i)))
                out.append(('one_bad_proof', dict(d=d, i=i)))
    for s in (2, 3, 5, 17, 100, 255):
        for v in ('count', 'sum', 'hist'):
            out.append(('attack', dict(d=dict(v=v, shares=s, max=3, length=3, chunk=2), n=3)))
    # many calls of the gadget
    for v in ('sumvec', 'hist', 'mhot', 'mp'):
        for lo, hi in ((66, 127), (128, 130), (131, 254)) + (((255, 258), (259, 510)) if v in g.r.sample(['sumvec', 'hist', 'mhot', 'mp'], 2) else ()):
            for _ in range(c.n(1, 4)):
                d = g.long(v, lo, hi)
                n = gen.circuit(d).meas_len
                for i in (n - 1, g.r.randrange(n * 9 // 10, n), g.r.randrange(n)):
                    out.append(('index', dict(d=d, i=i, long=True)))
    for _ in range(c.n(60, 400)):
        v = g.pick(['sumvec', 'hist', 'mhot', 'mp'])
        out.append(('jr', dict(d=g.prio3(v, budget=0.05, max_shares=6), n=3)))
    for n in (100, 260, 520, 1030, 2060) + (() if c.tier == 'quick' else (4100, 8200)):
        for d in (dict(v='hist', shares=2, length=n, chunk=g.pick([20, 40, 64])), dict(v='mhot', shares=2, length=n, max=7, chunk=50),
                  dict(v='sumvec', shares=2, length=n // 3 + 1, max=7, chunk=45)):
            out.append(('jr', dict(d=d, n=2, mode='stale')))
    for v in ('sumvec', 'hist', 'mhot', 'mp'):
        for i in range(c.n(5, 40)):
            d = g.wide(v, 800 if i else 3000)
            out.append(('attack', dict(d=d, n=2, modes=['native', 'native', 'honest', 'forge'], wide=True)))
            n = gen.circuit(d).meas_len
            out.append(('index', dict(d=d, i=g.pick([n - 1, g.r.randrange(n * 9 // 10, n), g.r.randrange(n)]), long=True, wide=True)))
    for v in ('sum', 'sumvec', 'hist', 'mhot', 'mp'):
        for _ in range(c.n(2, 12)):
            out.append(('positions', dict(d=attacks.narrow(g, v, True))))
        for _ in range(c.n(3, 20)):
            out.append(('positions', dict(d=attacks.narrow(g, v, False), fast=True)))
    return out


def attack(mon, v, vk, ctx, nonce, pub, ins, what):
    try:
        outs = gen.broadcast(v, vk, ctx, None, nonce, pub, ins)
    except Exception:
        mon.ev('attacks_rejected')
        return
    mon.ok(False, lambda: f'{what}: accepted by all aggregators with outputs {gen.total(outs, v.flp.field.MODULUS)}')


def native(v, ctx, vec, nonce, rand):
    """The real client with its encoder replaced."""
    e = [v.flp.field(x) for x in vec]
    enc = lambda m: list(e)     # noqa: E731
    v.flp.encode = enc
    try:
        v.flp.valid.encode = enc
    except Exception:
        pass
    return gen.shard(v, ctx, 0, nonce, rand)


def run(case, rng, mon):
    g = G(rng)
    d = case['p']['d']
    C, M = gen.circuit(d), gen.model(d)
    v = gen.build(d)
    ctx, vk = g.ctx(), g.r.randbytes(32)
    kind = case['kind']

    def fresh():
        return g.nonce(), g.r.randbytes(M.rand_size)

    if kind == 'positions':
        def rands():
            # as the instance derives them
            f, flp = v.flp.field, v.flp
            jr, qr = ([f(g.r.randrange(C.F.p)) for _ in range(n)] for n in (flp.JOINT_RAND_LEN, flp.QUERY_RAND_LEN))
            try:
                a, b = v.query_rands(g.r.randbytes(32), ctx, g.nonce()), v.joint_rands(ctx, g.r.randbytes(32)) if jr else []
                if len(a) == len(qr) and len(b) == len(jr):
                    return b, a
            except Exception:
                pass
            return jr, qr
        found = attacks.dependencies(g, d, C, v.flp, v.flp.field, rands, case['p'].get('fast'))
        mon.ev('instances_not_probed' if found is None else 'instances_probed')
        for why, x in found or []:
            nonce, rand = fresh()
            attack(mon, v, vk, ctx, nonce, *native(gen.build(d), ctx, x, nonce, rand), f'{d}: {x}; {why}')
            mon.ev('native_attacks')
        mon.case(str(d), 'positions')
        mon.sample('positions', d=d, exploits=len(found or []))
        return

    # controls: both clients are accepted on a valid vector
    nonce, rand = fresh()
    x = C.encode(g.meas(d))
    try:
        gen.broadcast(v, vk, ctx, None, nonce, *M.shard_vec(ctx, x, nonce, rand))
        mon.ev('model_control_accepted')
    except Exception:
        mon.ev('model_control_failed')
    try:
        gen.broadcast(v, vk, ctx, None, nonce, *native(gen.build(d), ctx, x, nonce, rand))
        mon.ev('native_control_accepted')
    except Exception:
        mon.ev('native_control_failed')

    if kind == 'one_bad_proof':
        i = case['p']['i']
        pl = C.proof_len()
        for e in [g.r.randrange(pl), 0, pl - 1]:
            nonce, rand = fresh()
            delta = g.pick([1, C.F.p - 1, g.r.randrange(1, C.F.p)])

            def forge(jrl, prl):
                ps = [ref.flp_prove(C, x, a, b) for a, b in zip(prl, jrl)]
                ps[i][e] = (ps[i][e] + delta) % C.F.p
                return ps
            pub, ins = M.shard_vec(ctx, x, nonce, rand, forge)
            attack(mon, v, vk, ctx, nonce, pub, ins, f'{d}: proof {i} of {d["proofs"]} altered at element {e}')
            mon.ev('attack_one_bad_proof')
            mon.case(str(d), 'bad proof', i, e)
        mon.sample('one_bad_proof', d=d, proof=i)
        return

    if kind == 'jr':
        for _ in range(case['p']['n']):
            nonce, rand = fresh()
            seeds, blinds, lblind, pseed = M.split_rand(rand)
            hm = [M.meas_share(ctx, j + 1, s) for j, s in enumerate(seeds)]
            parts = [M.part(ctx, j + 1, blinds[j], hm[j], nonce) for j in range(d['shares'] - 1)]
            mode = case['p'].get('mode') or g.pick(['leader', 'all', 'zero', 'stale'])
            claim = [g.r.randbytes(32)] + parts
            if mode == 'all':
                claim = [g.r.randbytes(32) for _ in range(d['shares'])]
            elif mode == 'zero':
                claim = [bytes(32)] * d['shares']
            base = tail = None
            if mode == 'stale':
                # the parts of a valid vector, a few elements of which are changed afterwards
                base, tail = C.encode(g.meas(d)), g.r.random() < 0.6
                lead = [(a - sum(h[i] for h in hm)) % C.F.p for i, a in enumerate(base)]
                claim = [M.part(ctx, 0, lblind, lead, nonce)] + parts
                if g.r.random() < 0.75:
                    # as the real client computes them
                    pub, _ = native(gen.build(d), ctx, base, nonce, rand)
                    if len(pub) == 32 * d['shares']:
                        claim = [pub[i:i + 32] for i in range(0, len(pub), 32)]
            jrs = M.jrs(ctx, M.jr_seed(ctx, claim))
            n = C.jr_len
            x = attacks.craft_for_jr(g, d, C, jrs[:n], base, tail) if d.get('proofs', 1) == 1 else attacks.invalid_vector(g, d, C)[1]
            if x is None or C.valid(x):
                continue

            def forge(_, prl):
                return [ref.flp_prove(C, x, a, jrs[k * n:(k + 1) * n]) for k, a in enumerate(prl)]
            _, ins = M.shard_vec(ctx, x, nonce, rand, forge)
            attack(mon, v, vk, ctx, nonce, b''.join(claim), ins,
                   f'{d}: invalid vector {x} with client-chosen joint randomness ({mode})')
            mon.ev('attack_jr_chosen')
            mon.ev('attack_jr_' + mode)
            mon.case(str(d), 'jr', mode, str(x))
        mon.sample('jr', d=d)
        return

    if kind == 'index':
        i = case['p']['i']
        p = C.F.p
        for val in (2, p - 1, g.r.randrange(2, p)) if not case['p'].get('long') else (g.pick([2, p - 1, g.r.randrange(2, p)]),):
            x = C.encode(g.meas(d))
            x[i] = val
            if d['v'] == 'hist' and C.meas_len > 1:
                j = g.pick([k for k in range(C.meas_len) if k != i])
                x = [0] * C.meas_len
                x[i], x[j] = val, (1 - val) % p
            elif d['v'] == 'mhot' and C.meas_len > 1:
                # put the discrepancy somewhere so that the weight check holds
                if i < d['length']:
                    x[d['length']] = (x[d['length']] + sum(x[:d['length']])
                                      - sum(a * b for a, b in zip(C.w, x[d['length']:]))) * 1 % p if C.w[0] == 1 else x[-1]
                elif g.r.random() < 0.5:
                    for _ in range(20):
                        y = attacks.one_digit(g, d, C, i - d['length'])
                        if not C.valid(y):
                            x = y
                            mon.ev('one_digit')
                            break
                else:
                    x[0] = (x[0] - sum(x[:d['length']]) + sum(a * b for a, b in zip(C.w, x[d['length']:]))) % p
            if C.valid(x):
                continue
            nonce, rand = fresh()
            attack(mon, v, vk, ctx, nonce, *M.shard_vec(ctx, x, nonce, rand), f'{d}: element {i} is {val}: {x}')
            attack(mon, v, vk, ctx, nonce, *native(gen.build(d), ctx, x, nonce, rand), f'{d}: element {i} is {val}: {x} (native)')
            mon.ev('native_attacks')
            if case['p'].get('long'):
                mon.ev('wide_attacks' if case['p'].get('wide') else 'long_attacks')
            mon.case(str(d), 'index', i, val)
        mon.sample('index', d=d, index=i, vector=x)
        return

    for _ in range(case['p']['n']):
        label, x = attacks.invalid_vector(g, d, C)
        nonce, rand = fresh()
        mode = g.pick(case['p'].get('modes') or ['honest', 'native', 'forge', 'guess', 'guess', 'random', 'other', 'zero'])
        if mode == 'native':
            pub, ins = native(gen.build(d), ctx, x, nonce, rand)
            mon.ev('native_attacks')
        else:
            gk = g.pick([bytes(32), bytes(range(32)), ctx[:32].ljust(32, b'\0'), nonce * 2])
            if gk == vk:
                continue

            def forge(jrl, prl):
                ps = []
                q = M.query_rands(gk, ctx, nonce)
                ql = C.query_rand_len()
                for k, (jr, pr) in enumerate(zip(jrl, prl)):
                    if mode == 'random':
                        ps.append([g.fe(C.F.p) for _ in range(C.proof_len())])
                        continue
                    if mode == 'zero':
                        ps.append([0] * C.proof_len())
                        continue
                    y = C.encode(g.meas(d)) if mode == 'other' else x
                    pf = ref.flp_prove(C, y, pr, jr)
                    if mode in ('forge', 'guess'):
                        pf = attacks.forge_outputs(g, C, x, pf, jr)
                    if mode == 'guess':
                        pf = attacks.fix_at(C, x, pf, q[k * ql:(k + 1) * ql], jr, g=g)
                    ps.append(pf)
                return ps
            pub, ins = M.shard_vec(ctx, x, nonce, rand, None if mode == 'honest' else forge)
        attack(mon, v, vk, ctx, nonce, pub, ins, f'{d}: invalid vector {x} ({label}) with {mode} proof')
        if case['p'].get('wide'):
            mon.ev('wide_attacks')
        mon.ev('attack_' + mode)
        mon.ev('vector_' + label)
        mon.case(str(d), label, mode, str(x))
        mon.sample(d['v'] + '/' + mode, d=d, vector=x, label=label)
