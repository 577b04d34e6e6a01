"""C17: measurements and parameters outside the domain are never accepted."""
from vmon import gen, ref
from vmon.gen import G

RULE = ('One case covers one object and its domain boundary: every in-range measurement of small domains (boundary-biased '
        'samples of large ones) must encode to the declared length, satisfy the circuit and decode back; measurements outside '
        '(negative, maximum+1.., modulus aliases, wrong lengths, too heavy, non-bits) must fail in shard() or have the report '
        'rejected by the aggregators; wrong nonce and randomness sizes must fail; constructors just outside each documented '
        'bound must fail and just inside must succeed and work. Non-trivial: distinct (object, measurement or parameter).')
NEED = dict(in_domain=3000, out_of_domain_refused=2500, out_of_domain_rejected_by_aggregators=50, wrong_size_refused=1500,
            bad_parameters_refused=800, boundary_parameters_work=150, wide_objects=16)


def cases(c):
    out = []
    g = G(c.rng)
    for v in gen.PRIO3:
        for i in range(c.n(250, 2000)):
            d = g.prio3(v, budget=0.05, max_shares=6)
            if i % 2:
                d = small(g, v)
            out.append(('meas', dict(d=d)))
    for v in ('sumvec', 'hist', 'mhot', 'mp'):
        for i in range(c.n(8, 50)):
            out.append(('meas', dict(d=g.wide(v, 400 if i % 4 else 5000), few=True)))
    for _ in range(c.n(120, 900)):
        out.append(('poplar', dict(bits=g.size(1, 64, (1, 2, 7, 8, 9, 16, 17)))))
    for _ in range(c.n(120, 900)):
        out.append(('ctor', dict(x=g.r.getrandbits(32))))
    for _ in range(c.n(200,1200)):
        out.append(('idpf', dict(bits=g.size(1, 20), vl=g.size(1, 5))))
    return out


def small(g, v):
    d = dict(v=v, shares=2)
    if v == 'sum':
        d['max'] = g.r.randint(1, 70)
    elif v == 'hist':
        d['length'] = g.r.randint(1, 12)
        d['chunk'] = g.chunk(d['length'])
    elif v == 'mhot':
        d['length'] = g.r.randint(1, 6)
        d['max'] = g.r.randint(1, d['length'])
        d['chunk'] = g.chunk(d['length'])
    elif v in ('sumvec', 'mp'):
        d['length'] = g.r.randint(1, 2)
        d['max'] = g.r.randint(1, 8)
        d['chunk'] = g.r.randint(1, 5)
        if v == 'mp':
            d.update(field='Field64', proofs=g.r.randint(1, 3))
    return d


def domain(g, d):
    """In-range measurements: all of them if few."""
    v = d['v']
    if v == 'count':
        return [0, 1]
    if v == 'sum':
        return list(range(d['max'] + 1)) if d['max'] <= 70 else [g.bval(d['max']) for _ in range(12)] + [0, 1, d['max'], d['max'] - 1]
    if v == 'hist':
        return list(range(d['length'])) if d['length'] <= 16 else [0, 1, d['length'] - 1, d['length'] - 2] + [g.meas(d) for _ in range(6)]
    if v == 'mhot' and d['length'] <= 6:
        return [[bool(b) for b in bits] for bits in gen.all_prefixes(d['length']) if sum(bits) <= d['max']]
    if v in ('sumvec', 'mp') and d['length'] <= 2 and d['max'] <= 8:
        import itertools
        return [list(t) for t in itertools.product(range(d['max'] + 1), repeat=d['length'])]
    return [g.meas(d) for _ in range(12)]


def outside(g, d, p):
    v = d['v']
    big = [p, p + 1, -p, 1 - p, 2**64, 2**64 + 1, 2**128, 2**128 + 1, p - 1, 2**32 * 7 + 5]
    if v == 'count':
        return [-1, -2, 2, 3, 255, 256] + big
    if v == 'sum':
        mx = d['max']
        top = 1 << mx.bit_length()
        c = [-1, -2, -mx, -top, mx + 1, mx + 2, top, top + 1, 2 * mx + 1, mx + g.r.randint(1, 1000), -g.r.randint(1, 1 << 40)] + big
        return [x for x in c if x < 0 or x > mx]
    if v == 'hist':
        n = d['length']
        c = [-1, -2, -n, -n - 1, 1 - n, n, n + 1, 2 * n, n + g.r.randint(1, 300), n + 256] + big
        return [x for x in c if x < 0 or x >= n]
    n = d['length']
    if v == 'mhot':
        out = []
        for k in {d['max'] + 1, n, d['max'] + 2, min(n, 2 * d['max'])}:
            if d['max'] < k <= n:
                s = set(g.r.sample(range(n), k))
                out.append([i in s for i in range(n)])
        base = [False] * n
        for x in (2, -1, p - 1, p, p + 1, d['max'], d['max'] + 1):
            if x in (0, 1):
                continue
            b = list(base)
            b[g.r.randrange(n)] = x
            out.append(b)
        if n > 1:
            b = list(base)
            b[0], b[1] = 2, -1
            out.append(b)
            b[0], b[1] = p - 1, 2
            out.append(list(b))
        return out + [[], [False] * (n - 1), [False] * (n + 1), [True] * (n + 1), [True] + [False] * n]
    out = [[], [0] * (n - 1), [0] * (n + 1), [d['max']] * (n + 1), [0] * (2 * n)]
    for x in outside(g, dict(v='sum', max=d['max']), p):
        m = [g.bval(d['max']) for _ in range(n)]
        m[g.pick([0, n - 1, g.r.randrange(n)])] = x
        out.append(m)
    if n > 1:
        m = [0] * n
        m[0], m[1] = -1, 1
        out.append(m)
        m = [0] * n
        m[0], m[-1] = d['max'] + 1, -1
        out.append(m)
    return out


def accepted(vdaf, g, ctx, m, agg_param=None):
    """(stage reached, error) for a measurement: 'shard', 'verify' or 'accepted'."""
    nonce, rand = g.r.randbytes(16), g.r.randbytes(vdaf.RAND_SIZE)
    try:
        pub, ins = gen.shard(vdaf, ctx, m, nonce, rand)
    except Exception:
        return 'shard'
    try:
        gen.broadcast(vdaf, g.r.randbytes(32), ctx, agg_param, nonce, pub, ins)
    except Exception:
        return 'verify'
    return 'accepted'


def sizes(g, vdaf, m, ctx, name, mon):
    for k in sorted({0, 1, 15, 17, 31, 32, g.r.randrange(40)} - {16}):
        mon.raises(f'{name}: shard with a nonce of {k} bytes', lambda: vdaf.shard(ctx, m, g.r.randbytes(k), g.r.randbytes(vdaf.RAND_SIZE)))
        mon.ev('wrong_size_refused')
    R = vdaf.RAND_SIZE
    for k in sorted({0, 1, R - 1, R + 1, R - 32, R + 32, R - 16, R + 16, 2 * R, R // 2} - {R}):
        if k >= 0:
            mon.raises(f'{name}: shard with {k} bytes of randomness instead of {R}', lambda: vdaf.shard(ctx, m, g.r.randbytes(16), g.r.randbytes(k)))
            mon.ev('wrong_size_refused')


def run(case, rng, mon):
    g = G(rng)
    globals()['run_' + case['kind']](g, case['p'], mon)


def run_meas(g, P, mon):
    d = P['d']
    name = str(d)
    C = gen.circuit(d)
    F = C.F
    p = F.p
    f = gen.fld(F.name)
    valid = gen.build_valid(d)
    ctx = g.ctx()
    few = P.get('few')
    dom = [g.meas(d) for _ in range(3)] if few else domain(g, d)
    for m in dom:
        enc = valid.encode(m)
        mon.eq(len(enc), C.meas_len, f'{name}: length of the encoding of {m}')
        mon.eq(valid.MEAS_LEN, C.meas_len, f'{name}: MEAS_LEN')
        mon.ok(C.valid(gen.ints(enc)), lambda: f'{name}: encoding of {m} is not a valid one: {gen.ints(enc)[:10]}')
        outs = valid.eval(enc, [f(g.r.randrange(p)) for _ in range(C.jr_len)], 1)
        mon.ok(gen.ints(outs) == [0] * len(outs), lambda: f'{name}: circuit does not accept the encoding of {m}')
        mon.eq(valid.decode(valid.truncate(enc), 1), C.total([m]), f'{name}: decoding of the encoding of {m}')
        mon.ev('in_domain')
        mon.case(name, str(m))
    vdaf = gen.build(d)
    m = g.pick(dom)
    mon.eq(accepted(vdaf, g, ctx, m), 'accepted', f'{name}: report of {m}')
    bad = outside(g, d, p)
    for x in g.r.sample(bad, min(6, len(bad))) if few else bad:
        st = accepted(vdaf, g, ctx, x)
        mon.ok(st != 'accepted', lambda: f'{name}: measurement {str(x)[:200]} outside the domain is sharded and accepted')
        mon.ev('out_of_domain_refused')
        if st == 'verify':
            mon.ev('out_of_domain_rejected_by_aggregators')
        mon.case(name, str(x))
    if few:
        mon.ev('wide_objects')
    sizes(g, vdaf, m, ctx, name, mon)
    mon.sample('meas', object=name, in_domain=len(dom))


def run_poplar(g, P, mon):
    bits = P['bits']
    vdaf = gen.build(dict(v='poplar1', bits=bits))
    ctx = g.ctx()
    m = g.bits(bits)
    name = f'Poplar1({bits})'
    ap = (bits - 1, (m,))
    mon.eq(accepted(vdaf, g, ctx, m, ap), 'accepted', f'{name}: report of {m}')
    mon.ev('in_domain')
    for k in sorted({0, 1, bits - 1, bits + 1, bits + 7, 2 * bits, bits + 8} - {bits}):
        if k < 0:
            continue
        x = g.bits(k)
        st = accepted(vdaf, g, ctx, x, ap)
        mon.ok(st != 'accepted', lambda: f'{name}: string of {k} bits is accepted')
        mon.ev('out_of_domain_refused')
        mon.case(name, str(x))
    sizes(g, vdaf, m, ctx, name, mon)
    for b in (0, -1, -bits):
        mon.raises(f'Poplar1({b})', lambda: gen.build(dict(v='poplar1', bits=b)))
        mon.ev('bad_parameters_refused')


def run_idpf(g, P, mon):
    R = gen.repo()
    bits, vl = P['bits'], P['vl']
    i = R.idpf.IdpfBBCGGI21(vl, bits)
    f, l = R.field.Field64, R.field.Field255

    def args(**kw):
        a = dict(alpha=g.bits(bits), inner=[[f(g.fe(ref.F64.p)) for _ in range(vl)] for _ in range(bits - 1)],
                 leaf=[l(g.fe(ref.F255.p)) for _ in range(vl)], ctx=g.ctx(), nonce=g.r.randbytes(16), rand=g.r.randbytes(i.RAND_SIZE))
        a.update(kw)
        return a['alpha'], a['inner'], a['leaf'], a['ctx'], a['nonce'], a['rand']
    pub, keys = i.gen(*args())
    mon.eq((len(pub), [len(k) for k in keys]), (bits, [16, 16]), 'IDPF report shape')
    mon.ev('in_domain')
    bad = [dict(alpha=g.bits(k)) for k in (bits - 1, bits + 1, bits + 8, 0) if k >= 0]
    bad += [dict(nonce=g.r.randbytes(k)) for k in (0, 15, 17, 32)] + [dict(rand=g.r.randbytes(k)) for k in (0, 16, 31, 33, 48, 64)]
    bad += [dict(leaf=[l(1)] * k) for k in (0, vl - 1, vl + 1) if k >= 0]
    bad += [dict(inner=[[f(1)] * vl] * k) for k in (bits - 2, bits, bits + 1) if k >= 0]
    if bits > 1:
        for k in (0, vl - 1, vl + 1):
            inner = [[f(1)] * vl for _ in range(bits - 1)]
            inner[g.pick([0, bits - 2, g.r.randrange(bits - 1)])] = [f(1)] * k
            bad.append(dict(inner=inner))
    for kw in bad:
        a = args(**kw)
        mon.raises(f'IDPF({vl}, {bits}).gen with bad {list(kw)} {str(kw)[:80]}', lambda: i.gen(*a))
        mon.ev('wrong_size_refused')
        mon.case('idpf', bits, vl, str(kw)[:100])
    for a in ((0, bits), (vl, 0), (-1, bits), (vl, -1)):
        mon.raises(f'IdpfBBCGGI21{a}', lambda: R.idpf.IdpfBBCGGI21(*a))
        mon.ev('bad_parameters_refused')


def run_ctor(g, P, mon):
    R = gen.repo()
    good, bad = [], []
    for v in gen.PRIO3:
        base = small(g, v)
        for s in (0, 1, -1, 256, 257, -2, 2**16, 258 + g.r.randrange(1000)):
            bad.append(dict(base, shares=s))
        if v == 'count':
            good += [dict(base, shares=s) for s in (2, 3, 254, 255)]
        if v == 'mp':
            bad += [dict(base, proofs=k) for k in (0, -1, 256, 257, 512, 1000)]
            good += [dict(base, proofs=k) for k in (1, 2)]
            if g.r.random() < 0.2:
                good += [dict(base, length=1, max=1, chunk=1, proofs=k) for k in (254, 255)]
        if 'length' in base:
            bad += [dict(base, length=k, max=1) if v == 'mhot' else dict(base, length=k) for k in (0, -1, -g.r.randint(2, 99))]
            bad += [dict(base, chunk=k) for k in (0, -1, -g.r.randint(2, 99))]
            good += [dict(base, chunk=k) for k in (1, base['length'] * 9)]
        if v == 'mhot':
            n = base['length']
            bad += [dict(base, max=k) for k in (0, -1, n + 1, n + 2, 2 * n + 1, n + 256)]
            good += [dict(base, max=k) for k in (1, n)]
        if v in ('sum', 'sumvec', 'mp'):
            bad += [dict(base, max=k) for k in (0, -1, -2, -g.r.randint(3, 10**6))]
            F = gen.circuit(base).F
            lim = 1 << (F.p.bit_length() - 1)
            bad += [dict(base, max=k) for k in (lim, lim + 1, F.p - 1, F.p, F.p + 1, 2 * F.p, lim * 4)]
            big = dict(base, max=lim - 1)
            if v != 'sum':
                big.update(length=1, chunk=g.pick([7, 16, 64]))
            good += [big, dict(base, max=1)]
    for d in bad:
        mon.raises(f'constructing {d}', lambda: gen.build(d))
        mon.ev('bad_parameters_refused')
        mon.case('bad', str(d))
    for d in good:
        vdaf = gen.build(d)
        if g.r.random() < (1 if gen.est(d) < 0.02 else 0.1):
            m = g.meas(d)
            mon.eq(accepted(vdaf, g, b'x', m), 'accepted', f'{d}: report of {m}')
            mon.ev('boundary_parameters_work')
        mon.case('good', str(d))
    # circuits over each field
    for fname in ('Field64', 'Field96', 'Field128'):
        F, f = ref.FIELDS[fname], gen.fld(fname)
        lim = 1 << (F.p.bit_length() - 1)
        for k in (lim, lim + 1, F.p, 0, -1):
            mon.raises(f'Sum({fname}, {k})', lambda: R.bb.Sum(f, k))
            mon.raises(f'SumVec({fname}, 1, {k}, 1)', lambda: R.bb.SumVec(f, 1, k, 1))
            mon.ev('bad_parameters_refused', 2)
        for k in (lim - 1, 1):
            R.bb.Sum(f, k)
            R.bb.SumVec(f, 1, k, 1)
