"""C21: Prio3 messages are bit-exact with the draft."""
from vmon import gen, ref
from vmon.gen import G

RULE = ('One case runs one batch of reports through the code under test and through the independent model and compares every '
        'encoded message: public share, input shares, verifier shares, verifier message, output shares, aggregate shares, '
        'result, and the declared sizes and identifiers. The model itself is checked against all published vectors by '
        'setup_cmd. Non-trivial: distinct (variant, parameters, context length, measurement).')
NEED = dict(reports=900, messages_compared=6000, variants=6, multi_proof_reports=100, joint_rand_reports=400, many_shares=40, altered_compared=900, many_proofs=25)


def cases(c):
    out = []
    g = G(c.rng)
    for v in gen.PRIO3:
        for i in range(c.n(350, 3000)):
            out.append(('run', dict(d=g.prio3(v, budget=0.08 if i % 6 else 0.6))))
    for _ in range(c.n(50, 300)):
        d = g.prio3('mp', budget=0.004, max_shares=4)
        k = g.pick([g.r.randint(6, 255), g.r.randint(120, 255), 127, 128, 129, 255])
        out.append(('run', dict(d=dict(d, length=min(d['length'], 2), max=g.pick([1, 2, 3]), chunk=min(d['chunk'], 3), proofs=k))))
    for v in ('sumvec', 'hist', 'mhot', 'mp'):
        for i in range(c.n(6, 40)):
            out.append(('run', dict(d=g.wide(v, 500 if i % 3 else 3000))))
        for lo, hi in ((66, 127), (128, 254)):
            out.append(('run', dict(d=g.long(v, lo, hi))))
    return out


def altered(g, d, vdaf, M, vk, ctx, nonce, pub, ins, vshares, what, mon):
    """What the aggregators send is prescribed for every report they are able to decode."""
    n, C, F = d['shares'], M.C, M.F
    nm, npf = C.meas_len * F.size, C.proof_len() * M.k * F.size
    j = g.pick([0, n - 1, g.r.randrange(n)])
    how = g.pick(['public', 'share', 'both'] if C.jr_len else ['share'])
    pub2, x = bytearray(pub), ins[j]
    if how != 'share':
        u = g.r.random()
        if u < 0.4:
            pub2 = bytearray(g.r.randbytes(len(pub)))
        elif u < 0.6:
            parts = [pub[i:i + 32] for i in range(0, len(pub), 32)]
            parts[j], parts[g.r.randrange(n)] = g.pick(parts), parts[j]
            pub2 = bytearray(b''.join(parts))
        else:
            pub2[g.r.randrange(len(pub2))] ^= 1 << g.r.randrange(8)
    if how != 'public':
        if j == 0:
            v = F.dec(x[:nm + npf])
            for _ in range(g.pick([1, 1, 2, 5])):
                v[g.r.randrange(len(v))] = g.fe(F.p)
            x = F.enc(v) + (g.blob(len(x) - nm - npf) if g.r.random() < 0.3 else x[nm + npf:])
        else:
            x = g.blob(len(x))
    pub2 = bytes(pub2)
    st, vs = vdaf.verify_init(vk, ctx, j, None, nonce, vdaf.decode_public_share(pub2), vdaf.decode_input_share(j, x))
    mon.eq(vdaf.encode_verifier_share(vs), M.verify_init(vk, ctx, j, nonce, pub2, x)[1], f'{what}: verifier share {j} of an altered report')
    mon.ev('altered_compared')
    if C.jr_len:
        k = C.verifier_len() * M.k * F.size
        mixed = [s[:k] + (g.blob(len(s) - k) if g.r.random() < 0.6 else s[k:]) for s in vshares]
        msg = vdaf.verifier_shares_to_message(ctx, None, [vdaf.decode_verifier_share(st, s) for s in mixed])
        mon.eq(vdaf.encode_verifier_message(msg), M.to_message(ctx, mixed), f'{what}: verifier message for altered joint randomness parts')


def run(case, rng, mon):
    g = G(rng)
    d = case['p']['d']
    name = str(d)
    vdaf, M = gen.build(d), gen.model(d)
    C = M.C
    n = d['shares']
    mon.eq((vdaf.ID, vdaf.SHARES, vdaf.ROUNDS, vdaf.NONCE_SIZE, vdaf.RAND_SIZE, vdaf.VERIFY_KEY_SIZE),
           (gen.IDS[d['v']], n, 1, 16, M.rand_size, 32), f'{name}: constants')
    ctx, vk = g.ctx(), g.key()
    ms, per = [], []
    last = None
    for _ in range(g.pick([1, 1, 2, 3]) if gen.est(d) < 0.05 else 1):
        new = (g.meas(d), g.nonce(), gen.rand_for(vdaf, g), ctx if g.r.random() < 0.5 else g.ctx(), vk if g.r.random() < 0.5 else g.key())
        m, nonce, rand, ctx, vk = last = g.kin(last, new)
        what = f'{name} ctx={len(ctx)}B measurement={str(m)[:80]}'
        pub, ins = gen.shard(vdaf, ctx, m, nonce, rand)
        mpub, mins = M.shard(ctx, m, nonce, rand)
        mon.eq(pub, mpub, f'{what}: public share')
        for j in range(n):
            mon.eq(ins[j], mins[j], f'{what}: input share {j}')
        log = []
        outs = gen.broadcast(vdaf, vk, ctx, None, nonce, pub, ins, log=log)
        ver = [M.verify_init(vk, ctx, j, nonce, mpub, x) for j, x in enumerate(mins)]
        for j in range(n):
            mon.eq(log[0][2][j], ver[j][1], f'{what}: verifier share {j}')
            mon.eq(vdaf.encode_out_share(outs[j]), M.F.enc(ver[j][0][0]), f'{what}: output share {j}')
        mon.eq(log[1][2], M.to_message(ctx, [x[1] for x in ver]), f'{what}: verifier message')
        ms.append(m)
        per.append((outs, [x[0][0] for x in ver]))
        mon.ev('reports')
        mon.ev('messages_compared', 2 + 3 * n)
        if d.get('proofs', 1) > 1:
            mon.ev('multi_proof_reports')
        if d.get('proofs', 1) > 100:
            mon.ev('many_proofs')
        if C.jr_len:
            mon.ev('joint_rand_reports')
        if n > 8:
            mon.ev('many_shares')
        mon.case(name, len(ctx), str(m))
        altered(g, d, vdaf, M, vk, ctx, nonce, pub, ins, [x[1] for x in ver], what, mon)
    aggs = []
    for j in range(n):
        a = vdaf.agg_init(None)
        for o, _ in per:
            a = vdaf.agg_update(None, a, o[j])
        aggs.append(vdaf.encode_agg_share(a))
        mon.eq(aggs[-1], M.F.enc([sum(c) % M.F.p for c in zip(*[x[1][j] for x in per])]), f'{name}: aggregate share {j}')
        mon.ev('messages_compared')
    mon.eq(vdaf.unshard(None, [vdaf.decode_agg_share(None, a) for a in aggs], len(ms)), gen.expect_total(d, ms), f'{name}: result for {str(ms)[:100]}')
    mon.eq(vdaf.encode_agg_param(None), b'', f'{name}: aggregation parameter')
    mon.ev('variants')
    mon.sample(d['v'], vdaf=name, ctx_len=len(ctx), reports=len(ms))
