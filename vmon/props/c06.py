"""C06: verification binds context, nonce, key, identity and algorithm."""
from vmon import gen, ref
from vmon.gen import G

RULE = ('One case takes an honest report and re-runs verification with exactly one disagreement between client and '
        'aggregators or among the aggregators: context (one bit, prefix, suffix, length, byte moved across the boundary to '
        'nonce/tag), nonce, verification key, aggregation parameter, exchanged shares or identities, another proof count or '
        'variant. The control run without disagreement must succeed, every disagreement must make verification fail. '
        'Non-trivial: distinct (parameters, disagreement) with differing values.')
NEED = dict(control_accepted=150, disagreements_judged=2000, ctx=300, nonce=200, key=200, identity=200, algorithm=60, agg_param=80, helpers_compared=2500)
ASSUMPTIONS = ['hash collisions and soundness errors (about 2^-55) do not occur',
               'Prio3 without joint randomness does not bind the client to the nonce, by design']


def cases(c):
    out = []
    g = G(c.rng)
    b = 0.03 if c.tier == 'quick' else 0.1
    for v in gen.PRIO3:
        for _ in range(c.n(35, 300)):
            out.append(('prio3', dict(d=g.prio3(v, budget=b, max_shares=10))))
    for s in (50, 128, 255):
        for v in ('count', 'hist'):
            out.append(('prio3', dict(d=dict(v=v, shares=s, length=3, chunk=2))))
    for s in (3, 9, 20, 36, 70, 131, 135, 140, 200, 255, 255):
        for v in ('count', 'sum', 'hist', 'sumvec', 'mhot'):
            d = dict(v=v, shares=s, length=3, chunk=2, max=3)
            out.append(('helpers', dict(d=d)))
    for bits in list(range(1, 13)) + [16, 31, 32, 33, 64]:
        for _ in range(c.n(5, 40)):
            out.append(('poplar1', dict(d=dict(v='poplar1', bits=bits))))
    for k in (130, 257, 300):
        out.append(('poplar1', dict(d=dict(v='poplar1', bits=11), k=k)))
    for bits in (257, 300):
        out.append(('poplar1', dict(d=dict(v='poplar1', bits=bits))))
    for v in ('sumvec', 'hist', 'mhot', 'mp'):
        for i in range(c.n(2, 12)):
            out.append(('prio3', dict(d=g.wide(v, 400 if i else 1500), k=0)))
    for bits in [600, 1030] + [w + g.pick([1, 2, 20]) for w in g.words(60, 5000)]:
        out.append(('poplar1', dict(d=dict(v='poplar1', bits=bits), lean=True)))
    return out


def neighbours(g, b):
    """Byte strings different from b, close to it."""
    out = [b + b'\0', b'\0' + b, b + b'x', b + b, b'other']
    if b:
        out += [b[:-1], b[1:], gen.flip(b, 0), gen.flip(b, 8 * len(b) - 1), gen.flip(b, g.r.randrange(8 * len(b))),
                gen.flip(b, g.r.randrange(8 * len(b))), b[::-1], b'', bytes(len(b)), b[:len(b) // 2]]
        for k in (16, 31, 32, 64, 128, 255, 256):
            if len(b) > k:
                out += [b[:k], gen.flip(b, 8 * k), gen.flip(b, 8 * len(b) - 8)]
    return [x for x in dict.fromkeys(out) if x != b and len(x) <= 65527]


def same_len(g, b):
    n = len(b)
    out = [gen.flip(b, 0), gen.flip(b, 8 * n - 1), gen.flip(b, g.r.randrange(8 * n)), gen.flip(b, g.r.randrange(8 * n)),
           gen.flip(b, g.r.randrange(8 * n)), g.r.randbytes(n), bytes(n), b'\xff' * n, b[::-1], b[1:] + b[:1]]
    return [x for x in dict.fromkeys(out) if x != b]


def helpers(g, d, mon):
    """Which helpers are hard to tell apart? One input share is given to all of them, and pairs whose answers agree in
    any part, or whose numbers are related, exchange shares."""
    v = gen.build(d)
    ctx, vk, nonce = g.ctx(), g.key(), g.nonce()
    n = d['shares']
    pub, ins = gen.shard(v, ctx, g.meas(d), nonce, g.r.randbytes(v.RAND_SIZE))
    gen.broadcast(v, vk, ctx, None, nonce, pub, ins)
    mon.ev('control_accepted')
    seen, pairs = {}, []
    P = v.decode_public_share(pub)
    for j in range(1, n):
        _, sh = v.verify_init(vk, ctx, j, None, nonce, P, v.decode_input_share(j, ins[1]))
        e = v.encode_verifier_share(sh)
        for key in ((0, e[:16]), (1, e[-16:])):
            if key in seen and seen[key] != j:
                pairs.append((seen[key], j))
                mon.ev('similar_helpers')
            seen.setdefault(key, j)
        mon.ev('helpers_compared')
    pairs = pairs[:3]
    for q in (1, 2, 4, 8, 16, 32, 64, 100, 127, 128, 200):
        if n - 1 > q and g.r.random() < 0.35:
            a = g.r.randint(1, n - 1 - q)
            pairs.append((a, a + q))
    for a, b in pairs[:4]:
        sw = list(ins)
        sw[a], sw[b] = sw[b], sw[a]
        mon.ev('disagreements_judged')
        mon.ev('identity')
        try:
            gen.broadcast(v, vk, ctx, None, nonce, pub, sw)
            good = True
        except Exception:
            good = False
        mon.ok(not good, lambda: f'{d}: verification succeeded although helpers {a} and {b} exchanged their shares')
        mon.case(str(d), 'swap', a, b)
    mon.sample('helpers', d=d, exchanged=pairs[:4])


def run(case, rng, mon):
    g = G(rng)
    d = case['p']['d']
    if case['kind'] == 'helpers':
        return helpers(g, d, mon)
    v = gen.build(d)
    ctx, vk, nonce = g.ctx(), g.key(), g.nonce()
    pop = case['kind'] == 'poplar1'
    m = g.meas(d)
    ap = None
    if pop:
        level, k = g.pick([0, d['bits'] - 1, g.r.randrange(d['bits'])]), g.r.randint(1, 4)
        if 'k' in case['p']:
            level, k, m = 9, case['p']['k'], (True,) * 6 + m[6:]
        pf = tuple(sorted(set(g.prefixes(level, [m], k)) | {m[:level + 1]}))
        ap = (level, pf)
    pub, ins = gen.shard(v, ctx, m, nonce, g.r.randbytes(v.RAND_SIZE))
    n = len(ins)
    gen.broadcast(v, vk, ctx, ap, nonce, pub, ins)
    mon.ev('control_accepted')
    jr = pop or gen.circuit(d).jr_len > 0

    def judge(what, detail, **kw):
        a = dict(vdaf=v, vk=vk, ctx=ctx, agg_param=ap, nonce=nonce, pub=pub, ins=ins)
        a.update(kw)
        mon.ev('disagreements_judged')
        mon.ev(what)
        try:
            outs = gen.broadcast(**a)
        except Exception:
            outs = None
        mon.ok(outs is None, lambda: f'{d}: verification succeeded despite {detail}')
        mon.case(str(d), what, detail)
        mon.sample(d['v'] + '/' + what, d=d, detail=detail)

    def one(x, y, j):
        return [y if k == j else x for k in range(n)]

    j = g.r.randrange(n)
    few = (lambda seq, k: g.r.sample(seq, min(1 if 'k' in case['p'] or 'lean' in case['p'] else k, len(seq))))
    # contexts
    for c in few(neighbours(g, ctx), 7):
        judge('ctx', f'client context {ctx.hex()} and aggregator context {c.hex()}', ctx=c)
        judge('ctx', f'aggregator {j} using context {c.hex()} instead of {ctx.hex()}', ctx=one(ctx, c, j))
    # verification keys (one aggregator deviates)
    for k in few(same_len(g, vk), 5):
        judge('key', f'aggregator {j} using key {k.hex()} instead of {vk.hex()}', vk=one(vk, k, j))
    # nonces
    for x in few(same_len(g, nonce), 5):
        judge('nonce', f'aggregator {j} using nonce {x.hex()} instead of {nonce.hex()}', nonce=one(nonce, x, j))
        if jr:
            judge('nonce', f'client nonce {nonce.hex()} and aggregator nonce {x.hex()}', nonce=x)
    # identities and shares
    for _ in range(4):
        a, b = g.r.sample(range(n), 2)
        sw = list(ins)
        sw[a], sw[b] = sw[b], sw[a]
        judge('identity', f'input shares of aggregators {a} and {b} exchanged', ins=sw)
        dup = list(ins)
        dup[a] = dup[b]
        judge('identity', f'aggregator {a} using the share of {b}', ins=dup)
    if n >= 3:
        judge('identity', 'shares rotated among the helpers', ins=ins[:1] + ins[2:] + ins[1:2])
    # two helpers exchange identity: each runs as the other
    if n >= 3:
        a, b = g.r.sample(range(1, n), 2)
        judge('identity', f'helpers {a} and {b} running with each other\'s identity',
              ins=[ins[{a: b, b: a}.get(k, k)] for k in range(n)])
    # another report's share
    pub2, ins2 = gen.shard(v, ctx, g.meas(d), nonce, g.r.randbytes(v.RAND_SIZE))
    judge('identity', f'aggregator {j} using its share of another report', ins=one(None, None, -1)[:0] + [
        ins2[k] if k == j else ins[k] for k in range(n)])
    if jr:
        judge('identity', 'public share of another report', pub=pub2)
    # aggregation parameter
    if pop:
        level, pf = ap
        alts = []
        if len(pf) > 1:
            alts += [(level, pf[1:]), (level, pf[:-1]), (level, pf[::-1]), (level, pf[1:] + pf[:1])]
        q = list(pf[0])
        q[-1] = not q[-1]
        if tuple(q) not in pf:
            alts.append((level, tuple(sorted(set(pf[1:]) | {tuple(q)}))))
            alts.append((level, tuple(sorted(set(pf) | {tuple(q)}))))
        if level + 1 < d['bits']:
            alts.append((level + 1, tuple(x + (False,) for x in pf)))
        if level > 0:
            alts.append((level - 1, tuple(sorted({x[:-1] for x in pf}))))
        for alt in alts:
            judge('agg_param', f'aggregator {j} using parameter {alt} instead of {ap}', agg_param=one(ap, alt, j))
        # another bit length of the same report layout is another algorithm instance: sizes differ, must fail
        if d['bits'] > 1:
            o = gen.build(dict(v='poplar1', bits=d['bits'] + g.pick([-1, 1])))
            judge('algorithm', f'aggregators running {o.idpf.BITS} bits', vdaf=o)
    else:
        # same circuit, other algorithm identifier or number of proofs
        R = gen.repo()
        cls = type(v)

        class Other(cls):
            pass
        Other.ID = g.pick([v.ID ^ 1, v.ID ^ 0x100, v.ID ^ 0x10000, v.ID ^ 0x1000000, v.ID ^ 0x80000000, 0, 0x12345678])
        o = build_as(R, Other, d)
        judge('algorithm', f'aggregators running algorithm {Other.ID:#x} instead of {v.ID:#x}', vdaf=o)
        judge('algorithm', f'aggregator {j} running algorithm {Other.ID:#x}', vdaf=one(v, o, j))
        if d['v'] in ('sumvec', 'mp'):
            f = d.get('field', 'Field128')
            k = d.get('proofs', 1)
            for k2 in {k + 1, max(1, k - 1)} - {k}:
                if k2 < 256:
                    o = gen.build(dict(d, v='mp', field=f, proofs=k2))
                    if d['v'] == 'sumvec':
                        o = gen.build(dict(d, v='mp', field=f, proofs=k))
                    judge('algorithm', f'aggregators running {o.PROOFS} proofs, client {k}', vdaf=o)


def build_as(R, cls, d):
    v = d['v']
    if v == 'count':
        return cls(d['shares'])
    if v == 'sum':
        return cls(d['shares'], d['max'])
    if v == 'sumvec':
        return cls(d['shares'], d['length'], d['max'], d['chunk'])
    if v == 'hist':
        return cls(d['shares'], d['length'], d['chunk'])
    if v == 'mhot':
        return cls(d['shares'], d['length'], d['max'], d['chunk'])
    return cls(d['shares'], gen.fld(d['field']), d['proofs'], d['length'], d['max'], d['chunk'])
