"""C22: Poplar1 and IDPF messages are bit-exact with the draft."""
from vmon import gen, ref
from vmon.gen import G

RULE = ('poplar1: one case runs a batch of strings through the code under test and the independent model at several levels and '
        'compares every encoded message of both rounds, output and aggregate shares and the encoded aggregation parameters. '
        'idpf: keys, corrections, encoded public share and evaluations at several levels for arbitrary programmed values. '
        'Non-trivial: distinct (bits, level, prefix set, string).')
NEED = dict(reports=250, levels_run=700, messages_compared=6000, idpf_evaluations=600, leaf_levels=150, long_strings=10, very_long_strings=2, agg_params=700, altered_compared=1000)


def cases(c):
    out = []
    g = G(c.rng)
    for i in range(c.n(700, 6000)):
        bits = g.size(1, 40, (1, 2, 3, 7, 8, 9, 10, 15, 16, 17, 31, 32, 33)) if i % 12 else \
            g.pick([128, 256, 257, 258, 300, g.r.randint(41, 400), 64, 65])
        out.append(('poplar1', dict(bits=bits)))
    for bits in g.r.sample([511, 512, 513, 1023, 1024, 1025, 1100, 2047, 2048, 2049, g.r.randint(1030, 2200), g.r.randint(2200, 4200)], c.n(8, 12)):
        out.append(('poplar1', dict(bits=bits, few=True)))
        out.append(('idpf', dict(bits=bits, vl=g.pick([1, 2, 3]))))
    for k in (64, 129, 256, 257, 300, 513):
        out.append(('poplar1', dict(bits=g.pick([9, 10, 11, 12]), k=k)))
    for i in range(c.n(700, 6000)):
        out.append(('idpf', dict(bits=g.size(1, 24, (1, 2, 3, 4, 5, 7, 8, 9, 16, 17)) if i % 15 else g.r.randint(25, 200), vl=g.size(1, 9))))
    for k in [1030, 2060] + [w + g.r.randint(1, 9) for w in g.words(16, 4000)]:
        out.append(('poplar1', dict(bits=g.pick([14, 15]), k=k)))
    for bits in [w + g.pick([1, 2, 9]) for w in g.words(40, 5000)]:
        out.append(('poplar1', dict(bits=bits, few=True)))
        out.append(('idpf', dict(bits=bits, vl=g.pick([1, 2, 3]))))
    for vl in [20, 33, 65, 130] + [w + 1 for w in g.words(8, 1000)]:
        out.append(('idpf', dict(bits=g.r.randint(1, 5), vl=vl)))
    return out


def run(case, rng, mon):
    g = G(rng)
    if case['kind'] == 'poplar1':
        poplar1(g, case['p'], mon)
    else:
        idpf(g, case['p'], mon)


def poplar1(g, P, mon):
    bits = P['bits']
    vdaf, M = gen.build(dict(v='poplar1', bits=bits)), ref.RPoplar1(bits)
    mon.eq((vdaf.ID, vdaf.SHARES, vdaf.ROUNDS, vdaf.NONCE_SIZE, vdaf.RAND_SIZE, vdaf.VERIFY_KEY_SIZE), (6, 2, 2, 16, 128, 32), 'Poplar1 constants')
    ctx, vk = g.ctx(), g.key()
    reps = []
    last = None
    for _ in range(1 if bits > 40 else g.pick([1, 2, 2])):
        m, nonce, rand, ctx = last = g.kin(last, (g.bits(bits), g.nonce(), gen.rand_for(vdaf, g), ctx if g.r.random() < 0.5 else g.ctx()))
        what = f'Poplar1({bits}) ctx={len(ctx)}B string={"".join("01"[b] for b in m)}'
        pub, ins = gen.shard(vdaf, ctx, m, nonce, rand)
        mpub, mins = M.shard(ctx, m, nonce, rand)
        mon.eq(pub, mpub, f'{what}: public share')
        mon.eq(ins[0], mins[0], f'{what}: input share 0')
        mon.eq(ins[1], mins[1], f'{what}: input share 1')
        mon.ev('messages_compared', 3)
        mon.ev('reports')
        if bits > 256:
            mon.ev('long_strings')
        if bits > 1024:
            mon.ev('very_long_strings')
        reps.append((m, nonce, pub, ins, {}, ctx))
    levels = g.levels(bits)
    if len(levels) > 6:
        levels = sorted(g.r.sample(levels, 2 if P.get('few') else 6))
    for level in sorted(set(levels + [bits - 1] if g.r.random() < 0.7 else levels), reverse=g.r.random() < 0.3):
        F = M.fld(level)
        k = g.size(1, 40 if bits <= 40 else 6, (1, 2, 3, 7, 8, 16))
        if 'k' in P and level >= 8:
            k = P['k']
        ap = (level, g.prefixes(level, [r[0] for r in reps], k))
        if g.r.random() < 0.1:
            ap = (level, ())
        elif level < 5 and g.r.random() < 0.3:
            ap = (level, gen.all_prefixes(level + 1))
        what = f'Poplar1({bits}) level {level} with {len(ap[1])} prefixes'
        mon.eq(vdaf.encode_agg_param(ap), M.enc_agg_param(ap), f'{what}: aggregation parameter')
        dec = vdaf.decode_agg_param(M.enc_agg_param(ap))
        mon.eq((dec[0], [tuple(map(bool, q)) for q in dec[1]]), (ap[0], list(ap[1])), f'{what}: decoded aggregation parameter')
        mon.ev('agg_params')
        outs, mouts = [], []
        for m, nonce, pub, ins, cache, ctx in reps:
            log = []
            o = gen.broadcast(vdaf, vk, ctx, ap, nonce, pub, ins, log=log)
            st = [M.verify_init(vk, ctx, b, ap, nonce, pub, ins[b], cache) for b in (0, 1)]
            for b in (0, 1):
                mon.eq(log[0][2][b], st[b][1], f'{what}: first verifier share {b}')
            msg = M.to_message(level, [s[1] for s in st])
            mon.eq(log[1][2], msg, f'{what}: first verifier message')
            v2 = [M.next0(s[0], msg) for s in st]
            for b in (0, 1):
                mon.eq(log[2][2][b], v2[b], f'{what}: second verifier share {b}')
            mon.eq(log[3][2], M.to_message(level, v2), f'{what}: second verifier message')
            for b in (0, 1):
                mon.eq(vdaf.encode_out_share(o[b]), F.enc(st[b][0][4]), f'{what}: output share {b}')
            outs.append(o)
            mouts.append([s[0][4] for s in st])
            mon.ev('messages_compared', 8)
            mon.case(bits, level, str(ap[1])[:200], str(m)[:100])
            if 'k' not in P and (bits <= 40 or g.r.random() < 0.3):
                altered(g, bits, vdaf, M, vk, ctx, ap, nonce, pub, ins, mon)
        aggs = []
        for b in (0, 1):
            a = vdaf.agg_init(ap)
            for o in outs:
                a = vdaf.agg_update(ap, a, o[b])
            aggs.append(vdaf.encode_agg_share(a))
            mon.eq(aggs[-1], F.enc([sum(c) % F.p for c in zip(*[x[b] for x in mouts])]), f'{what}: aggregate share {b}')
            mon.ev('messages_compared')
        mon.eq(vdaf.unshard(ap, [vdaf.decode_agg_share(ap, a) for a in aggs], len(reps)),
               [sum(r[0][:level + 1] == q for r in reps) for q in ap[1]], f'{what}: result')
        mon.ev('levels_run')
        if level == bits - 1:
            mon.ev('leaf_levels')
    mon.sample('poplar1', bits=bits, levels=str(levels), reports=len(reps))


def altered(g, bits, vdaf, M, vk, ctx, ap, nonce, pub, ins, mon):
    """What the aggregators send is prescribed for every report they are able to decode."""
    level = ap[0]
    F = M.fld(level)
    what = f'Poplar1({bits}) level {level}, altered report'
    bad = bytearray(pub)
    for _ in range(g.pick([0, 1, 1, 2])):
        bad[g.r.randrange(len(bad))] ^= 1 << g.r.randrange(8)
    try:
        M.idpf.dec_public(bytes(bad))
        dp = vdaf.decode_public_share(bytes(bad))
    except Exception:
        bad = pub
        dp = vdaf.decode_public_share(pub)
    bad = bytes(bad)
    sh = []
    for b in (0, 1):
        key, cs, inner, leaf = M.dec_input(ins[b])
        how = g.pick(['key', 'seed', 'inner', 'leaf', 'all'])
        if how in ('key', 'all'):
            key = g.blob(16)
        if how in ('seed', 'all'):
            cs = g.blob(32)
        if how in ('inner', 'all'):
            inner = [g.fe(ref.F64.p) for _ in inner]
        if how in ('leaf', 'all'):
            leaf = [g.fe(ref.F255.p) for _ in leaf]
        x = M.enc_input((key, cs, inner, leaf))
        st, vs = vdaf.verify_init(vk, ctx, b, ap, nonce, dp, vdaf.decode_input_share(b, x))
        mst, mvs = M.verify_init(vk, ctx, b, ap, nonce, bad, x)
        mon.eq(vdaf.encode_verifier_share(vs), mvs, f'{what} ({how}): first verifier share {b}')
        msg = g.pick([M.to_message(level, [mvs, mvs]), F.enc([g.fe(F.p) for _ in range(3)])])
        st2, vs2 = vdaf.verify_next(ctx, st, vdaf.decode_verifier_message(st, msg))
        mon.eq(vdaf.encode_verifier_share(vs2), M.next0(mst, msg), f'{what} ({how}): second verifier share {b}')
        out = vdaf.verify_next(ctx, st2, vdaf.decode_verifier_message(st2, b''))
        mon.eq(vdaf.encode_out_share(out), F.enc(mst[4]), f'{what} ({how}): output share {b}')
        mon.ev('altered_compared')


def idpf(g, P, mon):
    R = gen.repo()
    bits, vl = P['bits'], P['vl']
    I, M = R.idpf.IdpfBBCGGI21(vl, bits), ref.RIdpf(vl, bits)
    last = None
    for _ in range(2 if bits < 25 else 1):
        last = g.kin(last, (g.bits(bits), g.ctx(), g.nonce(), g.blob(32)), 0.5)
        idpf_report(g, P, I, M, *last, mon)


def idpf_report(g, P, I, M, alpha, ctx, nonce, rand, mon):
    R = gen.repo()
    bits, vl = P['bits'], P['vl']
    betas = [[g.fe(M.fld(lv).p) for _ in range(vl)] for lv in range(bits)]
    inner = [[R.field.Field64(x) for x in b] for b in betas[:-1]]
    leaf = [R.field.Field255(x) for x in betas[-1]]
    what = f'IDPF({vl}, {bits})'
    pub, keys = I.gen(alpha, inner, leaf, ctx, nonce, rand)
    cws, mkeys = M.gen(alpha, betas, ctx, nonce, rand)
    enc = I.encode_public_share(pub)
    mon.eq(list(keys), list(mkeys), f'{what}: keys')
    mon.eq(enc, M.enc_public(cws), f'{what}: public share')
    mon.ev('messages_compared', 3)
    dec = I.decode_public_share(enc)
    levels = sorted(set(g.r.sample(range(bits), min(bits, 3)) + [bits - 1]), reverse=g.r.random() < 0.3)
    cache = {}
    for level in levels:
        pf = g.prefixes(level, [alpha], g.size(1, 12))
        pf = list(pf)
        g.r.shuffle(pf)
        for b in (0, 1):
            got = I.eval(b, dec, keys[b], level, tuple(pf), ctx, nonce)
            mon.eq([gen.ints(v) for v in got], M.eval(b, cws, keys[b], level, pf, ctx, nonce, cache), f'{what}: evaluation of share {b} at level {level}')
            mon.ev('idpf_evaluations')
        mon.case('idpf', bits, vl, level, str(pf)[:200])
    mon.sample('idpf', bits=bits, value_len=vl)
