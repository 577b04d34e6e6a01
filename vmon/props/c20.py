"""C20: shares hide the measurement behind fresh randomness."""
from vmon import gen, ref
from vmon.gen import G

RULE = ('prio3/poplar1 cases: shard several measurements with the same randomness and compare the shares as bytes; flip every byte '
        'of the randomness one at a time and compare which parts of the report change, element by element. stats cases: shard '
        'two fixed measurements under many random choices and compare every bit, and XORs of neighbouring bits, of each message '
        'between the two (|z| < 7.5), and the distribution of every element of the first share (16 cells, chi-square < 110). '
        'Non-trivial: distinct (VDAF, measurement pair, randomness byte).')
NEED = dict(helper_shares_compared=2000, masks_compared=800, rand_bytes_flipped=12000, elements_rerandomised=20000, bits_compared=100000,
            element_distributions=150, wire_seeds_rerandomised=2000, blinds_bind_public_share=300, one_time_values=5000, authenticators=700, many_shares=15, long_measurements=4)
ASSUMPTIONS = ['sharding randomness is uniform; chance of a false alarm of all statistical tests together is below 1e-6']


def cases(c):
    out = []
    g = G(c.rng)
    for v in gen.PRIO3:
        for _ in range(c.n(35, 300)):
            out.append(('prio3', dict(d=g.prio3(v, budget=0.006, max_shares=9))))
        for _ in range(c.n(5, 40)):
            out.append(('stats', dict(d=g.prio3(v, budget=0.003, max_shares=3))))
        for n in g.r.sample([13, 17, 18, 20, 33, 34, 64, 65, 66, 100, 129, 130, 200, 254, 255], c.n(5, 12)):
            d = g.prio3(v, budget=0.0015, shares=2)
            out.append(('prio3', dict(d=dict(d, shares=n), few=True)))
    for n in [1025, 2049, 2100, 4099] + ([] if c.tier == 'quick' else [1030, 3000, 5000, 8200, 16400]):
        for d in (dict(v='hist', shares=2, length=n, chunk=64), dict(v='sumvec', shares=3, length=n // 4 + 1, max=15, chunk=80),
                  dict(v='mhot', shares=2, length=n, max=9, chunk=70)):
            if c.tier == 'thorough' or d['v'] == 'hist' or g.r.random() < 0.4:
                out.append(('prio3', dict(d=d, few=True, long=True)))
    for _ in range(c.n(100, 800)):
        out.append(('poplar1', dict(d=dict(v='poplar1', bits=g.size(1, 40, (1, 2, 7, 8, 9, 16, 17))))))
    for _ in range(c.n(20, 150)):
        out.append(('poplar1', dict(d=dict(v='poplar1', bits=g.r.randint(33, 140)), few=True)))
    for _ in range(c.n(20, 160)):
        out.append(('stats', dict(d=dict(v='poplar1', bits=g.size(1, 9)))))
    for _ in range(c.n(12, 100)):
        out.append(('idpf', dict(bits=g.size(1, 9), vl=g.r.randint(1, 3))))
    return out


def run(case, rng, mon):
    globals()['run_' + case['kind']](G(rng), case['p'], mon)


def leader(C, d, enc):
    """Elements of the first input share: (measurement share, proof shares, rest)."""
    F = C.F
    n, k = C.meas_len * F.size, C.proof_len() * d.get('proofs', 1) * F.size
    return F.dec(enc[:n]), F.dec(enc[n:n + k]), enc[n + k:]


def run_prio3(g, P, mon):
    d = P['d']
    name = str(d)
    C = gen.circuit(d)
    p = C.F.p
    vdaf = gen.build(d)
    n, proofs = d['shares'], d.get('proofs', 1)
    ctx, nonce, rand = g.ctx(), g.nonce(), g.r.randbytes(vdaf.RAND_SIZE)
    m0 = g.meas(d)
    pub0, ins0 = gen.shard(vdaf, ctx, m0, nonce, rand)
    size = (C.meas_len + C.proof_len() * proofs) * C.F.size
    mon.ok(len(ins0) == n and len(ins0[0]) >= size, f'{name}: shape of the report')
    ms0, ps0, rest0 = leader(C, d, ins0[0])
    e0 = C.encode(m0)
    mask = [(x - y) % p for x, y in zip(ms0, e0)]
    mon.ok(all(mask), lambda: f'{name}: element {mask.index(0)} of the first measurement share is in the clear')
    mon.ok(len(set(mask)) == len(mask), lambda: f'{name}: two elements of the first measurement share have the same mask')
    secrets = {}
    for j in range(n):
        rest = rest0 if j == 0 else ins0[j]
        for k in range(0, len(rest), 32):
            x = rest[k:k + 32]
            mon.ok(x not in secrets, lambda: f'{name}: seed or blind {k // 32} of share {j} is also held by share {secrets[x]}')
            secrets[x] = j
            mon.ev('one_time_values')
    if C.jr_len:
        cut = [pub0[i:i + 32] for i in range(0, len(pub0), 32)]
        mon.ok(len(set(cut)) == len(cut) and not set(cut) & set(secrets), lambda: f'{name}: the public share repeats or discloses a value')
    mon.ok(len(set(ps0)) == len(ps0) and not set(ps0) & set(mask) and not set(ps0) & set(ms0),
           lambda: f'{name}: elements of the first share repeat')
    if n > 12:
        mon.ev('many_shares')
    if C.meas_len > 1024:
        mon.ev('long_measurements')
    for _ in range(5 if not P.get('few') else 1 if P.get('long') else 2):
        m = g.meas(d)
        pub, ins = gen.shard(vdaf, ctx, m, nonce, rand)
        for j in range(1, n):
            mon.ok(ins[j] == ins0[j], lambda: f'{name}: input share {j} depends on the measurement ({m0} and {m})')
            mon.ev('helper_shares_compared')
        ms, ps, rest = leader(C, d, ins[0])
        mk = [(x - y) % p for x, y in zip(ms, C.encode(m))]
        mon.ok(mk == mask, lambda: f'{name}: mask of the first measurement share depends on the measurement, element '
               f'{[i for i in range(len(mk)) if mk[i] != mask[i]][0]}')
        mon.ok(rest == rest0, lambda: f'{name}: blind of the first share depends on the measurement')
        mon.ev('masks_compared')
        mon.case(name, str(m0), str(m))
    # which randomness influences what
    parts = None
    if C.jr_len:
        mon.ok(len(pub0) % n == 0 and len(pub0), f'{name}: public share size {len(pub0)}')
        k = len(pub0) // n
        parts = [pub0[i * k:(i + 1) * k] for i in range(n)]
    seeds = [(o + k, ar) for q in range(proofs) for o, ar in wire_spans(C) for k in [q * C.proof_len()]]
    R = len(rand)
    idx = range(R) if R <= 200 else sorted(set(g.r.sample(range(R), 120) + list(range(0, R, 32)) + [R - 1]))
    if P.get('few'):
        idx = sorted(set(g.r.sample(range(R), 1 if P.get('long') else 12) + [R - 1, R - 32]))
    for i in idx:
        r2 = gen.flip(rand, 8 * i + g.r.randrange(8))
        pub, ins = gen.shard(vdaf, ctx, m0, nonce, r2)
        mon.ok((pub, ins) != (pub0, ins0), lambda: f'{name}: byte {i} of the {R} bytes of randomness has no influence on the report')
        mon.ev('rand_bytes_flipped')
        mon.case(name, 'byte', i)
        ms, ps, rest = leader(C, d, ins[0])
        helper_seed = [j for j in range(1, n) if ins[j][:32] != ins0[j][:32]]
        if helper_seed:
            for what, a, b in (('measurement', ms, ms0), ('proof', ps, ps0)):
                same = [x for x in range(len(a)) if a[x] == b[x]]
                mon.ok(not same, lambda: f'{name}: changing the seed of share {helper_seed} leaves {what} element {same[0]} of the first share as it was')
                mon.ev('elements_rerandomised', len(a))
        else:
            mon.ok(ms == ms0, lambda: f'{name}: randomness byte {i} changes the first measurement share but no other share')
            blind = [j for j in range(n) if (rest if j == 0 else ins[j][32:]) != (rest0 if j == 0 else ins0[j][32:])]
            if blind:
                j = blind[0]
                mon.ok(parts is not None and pub[j * k:(j + 1) * k] != parts[j],
                       lambda: f'{name}: the blind of share {j} does not influence its public joint randomness part')
                mon.ev('blinds_bind_public_share')
            elif ps != ps0:
                # prover randomness: every wire seed of every proof moves, independently
                delta = [(ps[o + t] - ps0[o + t]) % p for o, ar in seeds for t in range(ar)]
                mon.ok(all(delta) and len(set(delta)) == len(delta),
                       lambda: f'{name}: the prover randomness does not cover every wire of every proof independently')
                mon.ev('wire_seeds_rerandomised', len(delta))
    mon.sample('prio3', vdaf=name, rand_bytes=R)


def wire_spans(C):
    """(offset, arity) of the wire seeds of each gadget in one proof."""
    o, out = 0, []
    for gd, calls in zip(C.gadgets, C.calls):
        out.append((o, gd.arity))
        o += gd.arity + gd.degree * (ref.pow2(1 + calls) - 1) + 1
    return out


def run_poplar1(g, P, mon):
    d = P['d']
    vdaf = gen.build(d)
    name = str(d)
    ctx, nonce, rand = g.ctx(), g.nonce(), g.r.randbytes(vdaf.RAND_SIZE)
    m0 = g.bits(d['bits'])
    pub0, ins0 = gen.shard(vdaf, ctx, m0, nonce, rand)
    for _ in range(6):
        m = list(g.bits(d['bits']))
        if g.r.random() < 0.5:
            m = list(m0)
            i = g.pick([0, -1, g.r.randrange(len(m))])
            m[i] = not m[i]
        m = tuple(m)
        pub, ins = gen.shard(vdaf, ctx, m, nonce, rand)
        for j in (0, 1):
            mon.ok(ins[j] == ins0[j], lambda: f'{name}: input share {j} depends on the measurement ({m0} and {m})')
            mon.ev('helper_shares_compared')
        mon.ok(m == m0 or pub != pub0, lambda: f'{name}: the public share does not depend on the measurement ({m0} and {m})')
        mon.case(name, str(m0), str(m))
    distinct_levels(g, d['bits'], vdaf, ctx, nonce, m0, pub0, ins0, mon)
    R = len(rand)
    for i in range(R) if not P.get('few') else g.r.sample(range(R), 16):
        r2 = gen.flip(rand, 8 * i + g.r.randrange(8))
        pub, ins = gen.shard(vdaf, ctx, m0, nonce, r2)
        mon.ok((pub, ins) != (pub0, ins0), lambda: f'{name}: byte {i} of the {R} bytes of randomness has no influence on the report')
        # a byte either belongs to a key held by one aggregator or moves the correlated values of both
        mon.ok(ins != ins0, lambda: f'{name}: byte {i} of the randomness has no influence on the input shares')
        mon.ev('rand_bytes_flipped')
        mon.case(name, 'byte', i)
    mon.sample('poplar1', vdaf=name)


def distinct_levels(g, bits, vdaf, ctx, nonce, alpha, pub, ins, mon):
    """The one-time values protecting different levels of a report, and the shares of different aggregators, are unrelated."""
    R = gen.repo()
    name = f'Poplar1({bits})'
    M = ref.RPoplar1(bits)
    I = R.idpf.IdpfBBCGGI21(2, bits)
    dp = I.decode_public_share(pub)
    shares = [M.dec_input(x) for x in ins]
    seen = {}
    for b, (key, cs, inner, leaf) in enumerate(shares):
        for lab, x in [('key', key), ('seed', cs)] + [(f'correlation value {i}', v) for i, v in enumerate(inner)] + [(f'last correlation value {i}', v) for i, v in enumerate(leaf)]:
            mon.ok(x not in seen, lambda: f'{name}: {lab} of input share {b} equals {seen[x]}')
            seen[x] = f'{lab} of input share {b}'
            mon.ev('one_time_values')
    corr = {}
    for lv in range(bits):
        p = M.fld(lv).p
        for i in (0, 1):
            parts = [(s[2][2 * lv + i] if lv < bits - 1 else s[3][i]) for s in shares]
            x = sum(parts) % p
            mon.ok(x and x not in corr, lambda: f'{name}: correlation value {i} of level {lv} is {x}, like {corr.get(x)}')
            corr[x] = (lv, i)
    auth = {}
    for lv in range(bits) if bits <= 40 else sorted(set(g.r.sample(range(bits), 12) + list(range(bits - 8, bits)) + [0, 1])):
        p = M.fld(lv).p
        v = [gen.ints(I.eval(b, dp, shares[b][0], lv, (tuple(alpha[:lv + 1]),), ctx, nonce)[0]) for b in (0, 1)]
        data, a = [(x + y) % p for x, y in zip(*v)]
        mon.eq(data, 1, f'{name}: value at level {lv}')
        mon.ok(a and a not in auth, lambda: f'{name}: authenticator of level {lv} is {a}, level {auth.get(a)} has the same')
        mon.ok(a not in corr, lambda: f'{name}: authenticator of level {lv} is a correlation value')
        auth[a] = lv
        mon.ev('authenticators')


class Bits:
    """Per-bit counts of many equally long strings (bit-sliced counters)."""

    def __init__(self):
        self.planes = []
        self.n = 0

    def add(self, x):
        self.n += 1
        i = 0
        while x:
            if i == len(self.planes):
                self.planes.append(0)
            self.planes[i], x = self.planes[i] ^ x, self.planes[i] & x
            i += 1

    def counts(self, width):
        out = [0] * width
        for k, pl in enumerate(self.planes):
            s = bin(pl)[2:][::-1]
            for i, ch in enumerate(s[:width]):
                if ch == '1':
                    out[i] += 1 << k
        return out


SHIFTS = (0, 1, 2, 3, 8)


def compare(name, what, A, B, width, n, mon):
    for s in SHIFTS:
        ca, cb = A[s].counts(width), B[s].counts(width)
        for i in range(width - s):
            q = (ca[i] + cb[i]) / (2 * n)
            if q in (0, 1):
                continue
            z = (ca[i] - cb[i]) / (2 * n * q * (1 - q)) ** 0.5
            mon.ok(abs(z) < 7.5, lambda: f'{name}: bit {i}{f" xor bit {i + s}" if s else ""} of {what} is set {ca[i]} of {n} times for one measurement, '
                   f'{cb[i]} of {n} for another')
            mon.ev('bits_compared')


def run_stats(g, P, mon):
    d = P['d']
    vdaf = gen.build(d)
    name = str(d)
    N = 500
    ctx, nonce = b'stats', g.nonce()
    C = None if d['v'] == 'poplar1' else gen.circuit(d)
    if C is None:
        a = g.bits(d['bits'])
        b = tuple(not x for x in a)
    else:
        a, b = g.meas(d), g.meas(d)
        for _ in range(20):
            if a != b:
                break
            b = g.meas(d)
    tabs, lens = [], None
    dist = {}
    for w, m in enumerate((a, b)):
        tab = None
        for _ in range(N):
            pub, ins = gen.shard(vdaf, ctx, m, nonce if g.r.random() < 0.5 else g.r.randbytes(16), g.r.randbytes(vdaf.RAND_SIZE))
            msgs = [pub] + ins
            if tab is None:
                tab = [{s: Bits() for s in SHIFTS} for _ in msgs]
                lens = [len(x) for x in msgs]
            for t, x in zip(tab, msgs):
                v = int.from_bytes(x[:400], 'little')
                for s in SHIFTS:
                    t[s].add(v ^ (v >> s) if s else v)
            if C:
                ms, _, _ = leader(C, d, ins[0])
                for i, x in enumerate(ms[:40]):
                    dist.setdefault((w, i), [0] * 16)[x * 16 // C.F.p] += 1
        tabs.append(tab)
    for k, (A, B) in enumerate(zip(*tabs)):
        compare(name, 'the public share' if k == 0 else f'input share {k - 1}', A, B, min(400, lens[k]) * 8, N, mon)
    for key, cells in dist.items():
        chi = sum((x - N / 16) ** 2 / (N / 16) for x in cells)
        mon.ok(chi < 110, lambda: f'{name}: element {key[1]} of the first measurement share is not uniform: {cells}')
        mon.ev('element_distributions')
    mon.case(name, str(a), str(b))
    mon.sample('stats', vdaf=name, measurements=f'{a} {b}', samples=N)


def run_idpf(g, P, mon):
    R = gen.repo()
    bits, vl = P['bits'], P['vl']
    I = R.idpf.IdpfBBCGGI21(vl, bits)
    f, l = R.field.Field64, R.field.Field255
    name = f'IDPF({vl}, {bits})'
    a = g.bits(bits)
    b = tuple(not x for x in a)
    values = [([[f(0)] * vl] * (bits - 1), [l(0)] * vl),
              ([[f(g.r.randrange(f.MODULUS)) for _ in range(vl)] for _ in range(bits - 1)], [l(g.r.randrange(l.MODULUS)) for _ in range(vl)])]
    N = 500
    tabs, width = [], 0
    for m, (inner, leaf) in ((a, values[0]), (b, values[1])):
        t = {s: Bits() for s in SHIFTS}
        for _ in range(N):
            rand = g.r.randbytes(I.RAND_SIZE)
            pub, keys = I.gen(m, inner, leaf, b'ctx', g.r.randbytes(16), rand)
            mon.ok(keys[0] + keys[1] == rand or len(set(keys)) == 2, f'{name}: keys')
            e = I.encode_public_share(pub)
            width = len(e) * 8
            v = int.from_bytes(e, 'little')
            for s in SHIFTS:
                t[s].add(v ^ (v >> s) if s else v)
        tabs.append(t)
    compare(name, 'the public share', tabs[0], tabs[1], width, N, mon)
    mon.case(name, str(a))
