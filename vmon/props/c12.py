"""C12: XOF output is an unbiased function of seed, tag and binder only."""
from vmon import gen, ref
from vmon.gen import G

RULE = ('Stream cases read one or several XOF instances in generated chunkings and interleavings (bytes and field vectors mixed) '
        'and compare with the model stream. Sampler cases drive the vector sampler from a scripted byte source full of '
        'out-of-range and boundary candidates. Separation cases compare streams of input triples whose concatenations coincide '
        'or that differ in one bit. Size cases must be refused. Non-trivial: distinct (inputs, read pattern) or (script).')
NEED = dict(stream_bytes=1_000_000, reads=20000, vectors=1500, skipped_candidates=5000, separations=1500, refusals=60,
            interleaved=300, large_binders=20, repeated=1200)

XS = dict(ts=('XofTurboShake128', ref.RXofTS), aes=('XofFixedKeyAes128', ref.RXofAES))


def cases(c):
    out = []
    g = G(c.rng)
    for x in XS:
        for _ in range(c.n(350, 4000)):
            out.append(('stream', dict(x=x)))
        for _ in range(c.n(120, 1200)):
            out.append(('interleave', dict(x=x)))
        for _ in range(c.n(150, 1500)):
            out.append(('separate', dict(x=x)))
            out.append(('again', dict(x=x)))
        out.append(('long', dict(x=x)))
        out.append(('long', dict(x=x)))
        out.append(('sizes', dict(x=x)))
        for n in (4096, 65534, 65535, 65536, 65537, 65540, 100000, 131071, 131072, 200000, 262145, 1 << 20):
            out.append(('binder', dict(x=x, n=n)))
    for f in ref.FIELDS:
        for _ in range(c.n(150, 1500)):
            out.append(('sampler', dict(f=f)))
    return out


def inputs(g, X):
    seed = g.blob(X.SEED)
    dst = g.blob(g.size(0, 600, g.LENS))
    if g.r.random() < 0.4:
        dst = ref.dst(g.r.randrange(2), g.pick([1, 2, 3, 4, 5, 6, 0xffffffff]), g.r.randrange(10), g.ctx()[:65000])
    binder = g.blob(g.size(0, 1200, g.LENS))
    return seed, dst, binder


def chunk(g):
    x = g.r.random()
    if x < 0.4:
        return g.r.randint(1, 40)
    if x < 0.7:
        return g.pick([1, 2, 7, 8, 9, 12, 15, 16, 17, 24, 31, 32, 33, 47, 48, 49, 64, 127, 128, 167, 168, 169, 255, 256, 257, 336, 337])
    return g.r.randint(1, 700)


def run(case, rng, mon):
    g = G(rng)
    R = gen.repo()
    p, kind = case['p'], case['kind']
    if kind == 'sampler':
        return sampler(g, R, p['f'], mon)
    cls, X = getattr(R.xof, XS[p['x']][0]), XS[p['x']][1]
    mon.eq(cls.SEED_SIZE, X.SEED, 'SEED_SIZE')

    def read(a, b, what):
        """One read from the instance under test and from the model."""
        mon.ev('reads')
        if g.r.random() < 0.25:
            f = g.pick(list(ref.FIELDS))
            n = g.r.randint(1, 12)
            got = a.next_vec(gen.fld(f), n)
            mon.ok(all(type(e) is gen.fld(f) for e in got), f'{what}: element types')
            mon.eq(gen.ints(got), ref.vec_from(b, ref.FIELDS[f], n), f'{what}: vector over {f}')
            mon.ev('vectors')
            mon.ev('stream_bytes', n * ref.FIELDS[f].size)
            return ('v', f, n)
        n = chunk(g)
        mon.eq(a.next(n), b.next(n), f'{what}: {n} bytes')
        mon.ev('stream_bytes', n)
        return n

    if kind == 'stream':
        seed, dst, binder = inputs(g, X)
        a, b = cls(seed, dst, binder), X(seed, dst, binder)
        what = f'{p["x"]} seed={seed.hex()} dst={dst.hex()[:60]}({len(dst)}) binder={binder.hex()[:60]}({len(binder)})'
        pat = []
        for _ in range(g.r.randint(1, 40)):
            pat.append(read(a, b, what + f' after reads {pat[-6:]}'))
        mon.case(p['x'], seed, dst, binder, str(pat))
        mon.eq(cls.derive_seed(seed, dst, binder), ref.derive(seed, dst, binder, X), what + ': derive_seed')
        f, n = g.pick(list(ref.FIELDS)), g.size(1, 300)
        got = cls.expand_into_vec(gen.fld(f), seed, dst, binder, n)
        mon.eq(gen.ints(got), ref.expand(ref.FIELDS[f], seed, dst, binder, n, X), what + f': expand_into_vec {f} {n}')
        mon.ev('vectors')
        if p['x'] == 'ts':
            # the layout is defined for every seed length up to 255
            s2 = g.blob(g.pick([0, 1, 16, 31, 33, 64, 254, 255]))
            try:
                got = cls(s2, dst, binder).next(50)
            except ValueError:
                got = None
            mon.ok(got is None or got == X(s2, dst, binder).next(50), f'{what}: seed of {len(s2)} bytes')
        mon.sample('stream-' + p['x'], seed=seed, dst=dst, binder=binder, reads=pat[:10])
    elif kind == 'long':
        seed, dst, binder = inputs(g, X)
        a, b = cls(seed, dst, binder), X(seed, dst, binder)
        done = 0
        for n in [4095, 2, 60000, 5537, 16 * 256, 1, 100000] + ([65536 * 16] if p['x'] == 'ts' else [0x10000 * 16 - 175000]) + [33, 16, 17]:
            mon.eq(a.next(n), b.next(n), f'long {p["x"]} stream at {done}')
            done += n
        mon.ev('stream_bytes', done)
        mon.case('long', p['x'], seed)
    elif kind == 'binder':
        seed, dst, _ = inputs(g, X)
        binder = g.r.randbytes(p['n'])
        want = X(seed, dst, binder).next(100)
        mon.eq(cls(seed, dst, binder).next(100), want, f'{p["x"]} binder of {p["n"]} bytes')
        for i in (0, p['n'] - 1, g.r.randrange(p['n'])):
            mon.ok(cls(seed, dst, gen.flip(binder, 8 * i)).next(100) != want, f'{p["x"]}: byte {i} of a binder of {p["n"]} bytes is ignored')
            mon.ev('separations')
        mon.ev('large_binders')
        mon.ev('stream_bytes', 400)
        mon.case('binder', p['x'], p['n'])
    elif kind == 'interleave':
        k = g.r.randint(2, 5)
        ins = [inputs(g, X) for _ in range(k)]
        for i in range(1, k):
            s, d, b = ins[0]
            ins[i] = g.pick([ins[0], ins[i], (ins[i][0], d, b), (s, ins[i][1], b), (s, d, ins[i][2])])
        pairs = []
        for it in ins:
            pairs.append([it, cls(*it), X(*it)])
            if g.r.random() < 0.5:
                read(pairs[0][1], pairs[0][2], 'interleaved')
        for _ in range(40):
            q = g.pick(pairs)
            if g.r.random() < 0.1:
                q[1], q[2] = cls(*q[0]), X(*q[0])      # a fresh instance starts over
            read(q[1], q[2], f'{p["x"]} interleaved instances of {[x[0][0].hex()[:8] for x in pairs]}')
        mon.ev('interleaved', 40)
        mon.case('interleave', p['x'], str(ins)[:500])
    elif kind == 'again':
        # the same and nearly the same inputs for different fields, lengths and uses
        s, d, b = inputs(g, X)
        other = inputs(g, X)
        pool = [(s, d, b), (s, d, b), (s, d, b), g.pick([other, (other[0], d, b), (s, other[1], b), (s, d, other[2])])]
        pat = []
        for _ in range(12):
            it, op = g.pick(pool), g.pick(['vec', 'vec', 'vec', 'seed', 'stream'])
            what = f'{p["x"]} inputs {[x.hex()[:20] for x in it]}, after {pat[-5:]}'
            if op == 'vec':
                f, n = g.pick(list(ref.FIELDS)), g.pick([0, 1, 2, 3, 4, 4, 8, 8, g.r.randint(1, 60)])
                got = cls.expand_into_vec(gen.fld(f), *it, n)
                mon.ok(all(type(e) is gen.fld(f) for e in got), f'{what}: element types')
                mon.eq(gen.ints(got), ref.expand(ref.FIELDS[f], *it, n, X), f'{what}: expand_into_vec {f} {n}')
                mon.ev('vectors')
                pat.append((pool.index(it), f, n))
                if g.r.random() < 0.3 and got:
                    got[g.r.randrange(len(got))] = gen.fld(f)(5)     # the caller owns the list
            elif op == 'seed':
                mon.eq(cls.derive_seed(*it), ref.derive(*it, X), f'{what}: derive_seed')
                pat.append((pool.index(it), 'seed'))
            else:
                n = chunk(g)
                mon.eq(cls(*it).next(n), X(*it).next(n), f'{what}: stream')
                pat.append((pool.index(it), n))
            mon.ev('repeated')
        mon.case('again', p['x'], str(pat), s)
    elif kind == 'separate':
        seed, dst, binder = inputs(g, X)
        if g.r.random() < 0.3 and p['x'] == 'ts':
            seed = bytes(32)
        alts = []
        if binder:
            alts.append((seed, dst + binder[:1], binder[1:]))
        if dst:
            alts.append((seed, dst[:-1], dst[-1:] + binder))
            alts.append((seed, b'', dst + binder))
        alts += [(seed, dst + b'\0', binder), (seed, dst, binder + b'\0'), (seed, dst, b'\0' + binder), (seed, b'\0' + dst, binder)]
        # embedded length prefixes
        alts += [(seed, dst, binder + bytes([len(seed)]) + seed), (seed, dst + bytes([len(seed)]) + seed, binder),
                 (seed, len(dst).to_bytes(2, 'little') + dst, binder)]
        for i in range(3):
            x = [seed, dst, binder]
            if x[i]:
                x[i] = gen.flip(x[i], g.pick([0, 8 * len(x[i]) - 1, g.r.randrange(8 * len(x[i]))]))
                alts.append(tuple(x))
        if len(dst) >= 32 and len(seed) == 32:
            alts.append((dst[:32], seed + dst[32:], binder))
        base = cls(seed, dst, binder).next(48)
        for s, d, b in alts:
            if (s, d, b) == (seed, dst, binder) or len(d) > 65535:
                continue
            other = cls(s, d, b).next(48)
            # unrelated: no common block, in any alignment of 8 bytes
            common = [o for o in range(0, 48, 8) if base[o:o + 8] == other[o:o + 8]]
            mon.ok(not common, lambda: f'{p["x"]}: inputs {(seed.hex(), dst.hex(), binder.hex())} and {(s.hex(), d.hex(), b.hex())} '
                                       f'share output at offsets {common}')
            mon.ev('separations')
            mon.case('separate', s, d, b)
    else:
        for n in (65536, 65537, 65792, 100000, 131072):
            for tail in (b'', b'x'):
                mon.raises(f'{p["x"]} dst of {n} bytes', lambda: cls(bytes(X.SEED), bytes(n), tail).next(1))
                mon.raises(f'{p["x"]} derive_seed dst of {n} bytes', cls.derive_seed, bytes(X.SEED), bytes(n), tail)
                mon.ev('refusals', 2)
        for n in (65535, 65534, 65280):
            mon.eq(cls(bytes(X.SEED), bytes(n), b'b').next(40), X(bytes(X.SEED), bytes(n), b'b').next(40), f'dst of {n} bytes')
        bad = (256, 257, 300, 512) if p['x'] == 'ts' else (0, 1, 8, 15, 17, 31, 32, 33, 255, 256, 272)
        for n in bad:
            mon.raises(f'{p["x"]} seed of {n} bytes', lambda: cls(bytes(n), b'dst', b'binder').next(1))
            mon.raises(f'{p["x"]} expand seed of {n} bytes', lambda: cls.expand_into_vec(gen.fld('Field64'), bytes(n), b'', b'', 1))
            mon.ev('refusals', 2)
        mon.case('sizes', p['x'])


def sampler(g, R, fname, mon):
    F = ref.FIELDS[fname]
    f = gen.fld(fname)
    size, p = F.size, F.p
    mask = ref.pow2(p) - 1
    top = 1 << (8 * size)
    cands = []
    n = g.r.randint(1, 30)
    while len([c for c in cands if c & mask < p]) < n + 3:
        k = g.r.random()
        if k < 0.5:
            c = g.pick([p, p + 1, mask, p + g.r.randrange(mask - p + 1), mask - 1, p])
        elif k < 0.7:
            c = g.pick([p - 1, p - 2, 0, 1, mask & ~1 if (mask & ~1) < p else p - 1])
        else:
            c = g.fe(p)
        c &= mask
        hi = top // (mask + 1)
        if hi > 1:
            c |= g.r.randrange(hi) * (mask + 1)
        cands.append(c)
    data = b''.join(c.to_bytes(size, 'little') for c in cands)

    class Script(R.xof.Xof):
        SEED_SIZE = 0
        test_vec_name = 'script'

        def __init__(self, seed, dst, binder):
            self.pos = 0

        def next(self, length):
            if self.pos + length > len(data):
                raise IndexError('script exhausted')
            r = data[self.pos:self.pos + length]
            self.pos += length
            return r

    x = Script(b'', b'', b'')
    want, used = [], 0
    for c in cands:
        if len(want) == n:
            break
        used += 1
        if c & mask < p:
            want.append(c & mask)
    got = x.next_vec(f, n)
    mon.ok(gen.ints(got) == want, lambda: f'{fname}: sampled {gen.ints(got)} from candidates {cands}, specified {want}')
    mon.ok(all(0 <= e < p for e in gen.ints(got)), f'{fname}: out of range')
    mon.eq(x.pos, used * size, f'{fname}: bytes consumed for {n} elements')
    mon.ev('vectors')
    mon.ev('skipped_candidates', used - n)
    # the next read continues behind the last candidate
    mon.eq(x.next(1), data[used * size:used * size + 1], f'{fname}: stream position')
    got = Script.expand_into_vec(f, b'', b'', b'', n)
    mon.eq(gen.ints(got), want, f'{fname}: expand_into_vec')
    mon.case(fname, n, data)
    mon.sample('sampler-' + fname, candidates=cands[:6], result=want[:6])
