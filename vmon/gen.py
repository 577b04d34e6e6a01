"""Workload generators and execution helpers shared by the property modules."""
import itertools

from vmon import ref

WORDS = dict(new=[], ints=[], strs=[])

PRIO3 = ('count', 'sum', 'sumvec', 'hist', 'mhot', 'mp')


def repo():
    """The modules under test (imported on first use)."""
    import vdaf_poc.common as common
    import vdaf_poc.field as field
    import vdaf_poc.flp as flp
    import vdaf_poc.flp_bbcggi19 as bb
    import vdaf_poc.idpf_bbcggi21 as idpf
    import vdaf_poc.vdaf as vdaf
    import vdaf_poc.vdaf_ping_pong as pp
    import vdaf_poc.vdaf_poplar1 as pop
    import vdaf_poc.vdaf_prio3 as prio3
    import vdaf_poc.xof as xof

    class R:
        pass
    R.common, R.field, R.flp, R.bb, R.idpf = common, field, flp, bb, idpf
    R.vdaf, R.pp, R.pop, R.prio3, R.xof = vdaf, pp, pop, prio3, xof
    return R


def fld(name):
    return getattr(repo().field, name)


# ------------------------------------------------------------------ descriptors

def build(d):
    """Construct the object under test from a JSON descriptor."""
    R = repo()
    v = d['v']
    if v == 'poplar1':
        return R.pop.Poplar1(d['bits'])
    if v == 'count':
        return R.prio3.Prio3Count(d['shares'])
    if v == 'sum':
        return R.prio3.Prio3Sum(d['shares'], d['max'])
    if v == 'sumvec':
        return R.prio3.Prio3SumVec(d['shares'], d['length'], d['max'], d['chunk'])
    if v == 'hist':
        return R.prio3.Prio3Histogram(d['shares'], d['length'], d['chunk'])
    if v == 'mhot':
        return R.prio3.Prio3MultihotCountVec(d['shares'], d['length'], d['max'], d['chunk'])
    if v == 'mp':
        return R.prio3.Prio3SumVecWithMultiproof(d['shares'], fld(d['field']), d['proofs'],
                                                 d['length'], d['max'], d['chunk'])
    raise KeyError(v)


def circuit(d):
    v = d['v']
    F = ref.FIELDS[d.get('field', 'Field64' if v in ('count', 'sum') else 'Field128')]
    if v == 'count':
        return ref.RCount(F)
    if v == 'sum':
        return ref.RSum(F, d['max'])
    if v in ('sumvec', 'mp'):
        return ref.RSumVec(F, d['length'], d['max'], d['chunk'])
    if v == 'hist':
        return ref.RHistogram(F, d['length'], d['chunk'])
    if v == 'mhot':
        return ref.RMultihot(F, d['length'], d['max'], d['chunk'])
    raise KeyError(v)


IDS = dict(count=1, sum=2, sumvec=3, hist=4, mhot=5, mp=0xffffffff, poplar1=6)


def model(d):
    if d['v'] == 'poplar1':
        return ref.RPoplar1(d['bits'])
    return ref.RPrio3(IDS[d['v']], circuit(d), d['shares'], d.get('proofs', 1))


def build_valid(d, field=None):
    """The validity circuit object under test for a Prio3 descriptor."""
    bb = repo().bb
    v = d['v']
    F = fld(field or d.get('field', 'Field64' if v in ('count', 'sum') else 'Field128'))
    if v == 'count':
        return bb.Count(F)
    if v == 'sum':
        return bb.Sum(F, d['max'])
    if v in ('sumvec', 'mp'):
        return bb.SumVec(F, d['length'], d['max'], d['chunk'])
    if v == 'hist':
        return bb.Histogram(F, d['length'], d['chunk'])
    return bb.MultihotCountVec(F, d['length'], d['max'], d['chunk'])


def est(d):
    """Rough CPU seconds of one report's sharding and verification."""
    if d['v'] == 'poplar1':
        return d['bits'] * 3e-4
    C = circuit(d)
    t = 0
    for g, c in zip(C.gadgets, C.calls):
        p = ref.pow2(1 + c)
        n = ref.pow2(g.degree * (p - 1) + 1)
        t += n * n * 1.2e-6 + n * 2e-5 + g.arity * p * 4e-6
    t += C.meas_len * 8e-6
    return t * (d['shares'] + 1) * d.get('proofs', 1)


class G:
    def __init__(self, rng):
        self.r = rng

    # ---- scalars
    def pick(self, seq):
        return seq[self.r.randrange(len(seq))]

    def word(self, lo, hi):
        """A dictionary integer in [lo, hi] (also +-1), or None."""
        c = [w + k for w in WORDS['ints'] for k in (0, 1, -1) if lo <= w + k <= hi]
        return self.pick(c) if c else None

    def words(self, lo, hi, k=6):
        """Up to k dictionary integers in [lo, hi]."""
        c = [w for w in WORDS['ints'] if lo <= w <= hi]
        return self.r.sample(c, min(k, len(c)))

    def size(self, lo, hi, edges=()):
        """An integer in [lo, hi] biased to edges, small values and dictionary words."""
        x = self.r.random()
        if x < 0.25:
            w = self.word(lo, hi)
            if w is not None:
                return w
        e = [v for v in edges if lo <= v <= hi]
        if x < 0.5 and e:
            return self.pick(e)
        if x < 0.75:
            return min(hi, lo + int(self.r.expovariate(1 / 4)))
        return self.r.randint(lo, hi)

    def shares(self, hi=255):
        x = self.r.random()
        if x < 0.4:
            return 2
        if x < 0.6:
            return self.pick([3, 4, 5])
        return self.size(2, hi, (6, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 254, 255))

    def fe(self, p):
        """A field element, boundary biased."""
        x = self.r.random()
        if x < 0.5:
            return self.r.randrange(p)
        if x < 0.6:
            w = self.word(0, p - 1)
            if w is not None:
                return w
        k = self.r.randrange(0, p.bit_length())
        return self.pick([0, 1, 2, p - 1, p - 2, (p - 1) // 2, (p + 1) // 2, 1 << k, (1 << k) - 1,
                          p - (1 << k), (p >> k), 0xff << (k // 8 * 8), (1 << 32) - 1, 1 << 32]) % p

    # ---- byte strings
    def blob(self, n):
        if n == 0:
            return b''
        x = self.r.random()
        if x < 0.55:
            return self.r.randbytes(n)
        if x < 0.62:
            return bytes(n)
        if x < 0.69:
            return b'\xff' * n
        if x < 0.75:
            return bytes(i % 256 for i in range(n))
        b = bytearray(self.r.randbytes(n) if x < 0.85 else bytes(n))
        w = self.word(-1 << 62, 1 << 62)
        if w is not None and self.r.random() < 0.7:
            w = abs(w)
            k = max(1, (w.bit_length() + 7) // 8)
            raw = w.to_bytes(k, self.pick(['little', 'big']))[:n]
            o = self.pick([0, n - len(raw), self.r.randrange(n - len(raw) + 1)])
            b[o:o + len(raw)] = raw
        else:
            o = self.pick([0, n - 1, self.r.randrange(n)])
            b[o] = self.pick([0, 1, 2, 0x7f, 0x80, 0xfe, 0xff, 1 << self.r.randrange(8)])
        return bytes(b)

    LENS = (0, 1, 2, 3, 7, 8, 15, 16, 17, 23, 24, 25, 31, 32, 33, 63, 64, 65, 126, 127, 128, 129, 135, 136, 137,
            158, 159, 160, 161, 166, 167, 168, 169, 170, 200, 254, 255, 256, 257, 258, 263, 264, 265, 327, 328,
            335, 336, 337, 511, 512, 513, 1000, 1024)

    def long(self, v, lo, hi):
        """A Prio3 instance whose gadget is called between lo and hi times."""
        calls, ch = self.r.randint(lo, hi), self.pick([1, 1, 2, 3])
        n = calls * ch - self.r.randrange(ch)
        d = dict(v=v, shares=2, chunk=ch)
        if v == 'hist':
            d['length'] = n
        elif v == 'mhot':
            d['max'] = self.pick([1, 3, 7])
            d['length'] = n - d['max'].bit_length()
        else:
            d['max'] = self.pick([1, 3, 5, 255])
            d['length'] = n // d['max'].bit_length()
            if v == 'mp':
                d.update(field=self.pick(['Field64', 'Field96', 'Field128']), proofs=1)
        return d

    def wide(self, v, hi=6000, lo=61, shares=2):
        """A Prio3 instance with a long vector and few calls of a large gadget."""
        n = self.word(lo, hi) if self.r.random() < 0.4 else None
        n = int(lo * (hi / lo) ** self.r.random()) if n is None else min(hi, n + self.r.randint(0, 50))
        d = dict(v=v, shares=shares, length=n)
        if v == 'mhot':
            d['max'] = self.pick([1, n, n - 1, n - self.r.randint(1, n // 4), self.r.randint(1, n), n // 2])
            n += d['max'].bit_length()
        elif v in ('sumvec', 'mp'):
            d['max'] = self.pick([1, 1, 2, 3]) if n > 800 else self.pick([1, 3, 5, 200])
            n *= d['max'].bit_length()
            if v == 'mp':
                d.update(field=self.pick(['Field64', 'Field96', 'Field128']), proofs=self.pick([1, 1, 2]))
        calls = self.pick([1, 2, 3, 3, 4, 7])
        d['chunk'] = -(-n // calls) + self.pick([0, 0, 1, 5])
        return d

    def ctx(self):
        x = self.r.random()
        if x < 0.25:
            return b'some application'
        if x < 0.32:
            return b''
        if WORDS['strs'] and x < 0.5:
            return bytes.fromhex(self.pick(WORDS['strs']))
        n = self.size(0, 2000 if x < 0.97 else 65527, self.LENS + (65519, 65520, 65526, 65527))
        return self.blob(n)

    def nonce(self):
        return self.blob(16)

    def key(self):
        return self.blob(32)

    def kin(self, old, new, keep=0.35):
        """new with some entries taken over from old: inputs of two runs that agree in part."""
        if old is None or self.r.random() < 0.3:
            return new
        out = [o if self.r.random() < keep else n for o, n in zip(old, new)]
        if out == list(old):
            i = self.r.randrange(len(out))
            out[i] = new[i]
        return tuple(out)

    # ---- Prio3 parameters
    MAXES = (1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 14, 15, 16, 17, 31, 32, 33, 63, 64, 100, 127, 128, 129, 255, 256, 257,
             1000, 1023, 1024, 1337, 4095, 4096, 65535, 65536, 2**31 - 1, 2**31, 2**32 - 1, 2**32, 2**32 + 1,
             2**62 + 3, 2**63 - 1)

    def maxv(self, field, cap=None):
        """A legal max_measurement for the field: 2**bit_length < modulus."""
        hi = (1 << (field.p.bit_length() - 1)) - 1
        if cap is not None:
            hi = min(hi, cap)
        x = self.r.random()
        if x < 0.45:
            e = [v for v in self.MAXES if v <= hi] + [hi, hi - 1]
            return max(1, self.pick(e))
        if x < 0.55:
            w = self.word(1, hi)
            if w is not None:
                return w
        if x < 0.8:
            return self.r.randint(1, min(hi, 300))
        return self.r.randint(1, 1 << self.r.randint(1, hi.bit_length())) % hi + 1

    def chunk(self, n):
        s = int(n ** 0.5)
        return max(1, self.pick([1, 2, 3, s, s + 1, s, n, n - 1, n + 1, n + 3, 2 * n, (n + 1) // 2, n // 2,
                                 self.r.randint(1, n)]))

    def prio3(self, v=None, budget=1.0, shares=None, max_shares=255):
        for _ in range(200):
            d = self._prio3(v or self.pick(PRIO3), shares, max_shares)
            if est(d) <= budget:
                return d
            if shares is None:
                d['shares'] = self.pick([2, 2, 3, 4])
                if est(d) <= budget:
                    return d
        return dict(v='count', shares=shares or 2) if not v or v == 'count' else \
            dict(dict(sum=dict(max=5), sumvec=dict(length=2, max=3, chunk=2), hist=dict(length=3, chunk=2),
                      mhot=dict(length=3, max=2, chunk=2),
                      mp=dict(field='Field64', proofs=2, length=2, max=3, chunk=2))[v], v=v, shares=shares or 2)

    def _prio3(self, v, shares, max_shares=255):
        d = dict(v=v, shares=shares or self.shares(max_shares))
        if v == 'sum':
            d['max'] = self.maxv(ref.F64)
        elif v in ('sumvec', 'mp'):
            F = ref.F128
            if v == 'mp':
                d['field'] = self.pick(['Field64', 'Field64', 'Field96', 'Field128'])
                F = ref.FIELDS[d['field']]
                d['proofs'] = self.size(1, 255, (1, 2, 3, 4, 5, 8, 16, 128, 254, 255)) if self.r.random() < 0.3 \
                    else self.pick([1, 2, 2, 3, 3, 4, 5])
            d['length'] = self.size(1, 60, (1, 2, 3, 7, 8, 9, 10, 15, 16, 17, 31, 32, 33))
            d['max'] = self.maxv(F)
            n = d['length'] * d['max'].bit_length()
            d['chunk'] = self.chunk(n)
        elif v == 'hist':
            d['length'] = self.size(1, 200, (1, 2, 3, 4, 5, 7, 8, 9, 11, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100))
            d['chunk'] = self.chunk(d['length'])
        elif v == 'mhot':
            d['length'] = self.size(1, 100, (1, 2, 3, 4, 5, 7, 8, 9, 10, 15, 16, 17, 31, 32, 33))
            d['max'] = self.pick([1, d['length'], self.r.randint(1, d['length']), (d['length'] + 1) // 2])
            d['chunk'] = self.chunk(d['length'] + d['max'].bit_length())
        return d

    def bval(self, maxv):
        """A value in [0, maxv] with boundary bias."""
        b = maxv.bit_length()
        top = (1 << (b - 1)) - 1
        x = self.r.random()
        if x < 0.5:
            c = [0, 1, maxv, maxv - 1, top, top + 1, maxv - top, maxv - top - 1, maxv - top + 1,
                 1 << self.r.randrange(b)]
            w = self.word(0, maxv)
            if w is not None:
                c += [w, w, w]
            return min(maxv, max(0, self.pick(c)))
        return self.r.randint(0, maxv)

    def meas(self, d):
        v = d['v']
        if v == 'count':
            return self.r.randrange(2)
        if v == 'sum':
            return self.bval(d['max'])
        if v in ('sumvec', 'mp'):
            return [self.bval(d['max']) for _ in range(d['length'])]
        if v == 'hist':
            return self.pick([0, d['length'] - 1, self.r.randrange(d['length']), self.r.randrange(d['length'])])
        if v == 'mhot':
            k = self.pick([0, 1, d['max'], d['max'] - 1, self.r.randint(0, d['max'])])
            s = set(self.r.sample(range(d['length']), k))
            return [i in s for i in range(d['length'])]
        if v == 'poplar1':
            return self.bits(d['bits'])
        raise KeyError(v)

    # ---- Poplar1
    def bits(self, n):
        x = self.r.random()
        if x < 0.1:
            return (False,) * n
        if x < 0.2:
            return (True,) * n
        return tuple(bool(self.r.getrandbits(1)) for _ in range(n))

    def prefixes(self, level, strings, k, parents=None):
        """A sorted set of <= k distinct prefixes at level, mixing prefixes of
        the strings, their neighbours and random ones; within parents if given."""
        out = set()
        n = level + 1
        for _ in range(4 * k + 4):
            if len(out) >= k:
                break
            x = self.r.random()
            if strings and x < 0.45:
                p = self.pick(strings)[:n]
            elif strings and x < 0.7:
                p = list(self.pick(strings)[:n])
                i = self.pick([0, n - 1, self.r.randrange(n)])
                p[i] = not p[i]
                p = tuple(p)
            else:
                p = self.bits(n)
            if parents is not None:
                if not parents:
                    break
                q = self.pick(parents)
                if p[:len(q)] not in parents:
                    p = tuple(q) + p[len(q):]
            out.add(tuple(p))
        return tuple(sorted(out))

    def levels(self, bits):
        x = self.r.random()
        if x < 0.2 and bits <= 24:
            return list(range(bits))
        if x < 0.5:
            return [self.pick([0, bits - 1, max(0, bits - 2), self.r.randrange(bits)])]
        k = self.r.randint(1, min(bits, 4))
        ls = sorted(self.r.sample(range(bits), k))
        if self.r.random() < 0.5 and ls[-1] != bits - 1:
            ls[-1] = bits - 1
        return ls


def all_prefixes(n):
    return tuple(itertools.product((False, True), repeat=n))


# ------------------------------------------------------------------ executions over encoded messages

def rejecting_xof(rate=48):
    """The hash-based XOF with many candidates out of range: of the 32-byte blocks of the stream after the first, about
    rate/256 are all ones. Still a function of seed, tag, binder and position only."""
    base = repo().xof.XofTurboShake128

    class RejectingXof(base):
        def __init__(self, seed, dst, binder):
            super().__init__(seed, dst, binder)
            self.todo, self.blocks = b'', 0

        def next(self, length):
            while len(self.todo) < length:
                b = super().next(32)
                if self.blocks and b[0] < rate:
                    b = b'\xff' * 32
                    RejectingXof.rejected += 1
                self.blocks += 1
                self.todo += b
            out, self.todo = self.todo[:length], self.todo[length:]
            return out
    RejectingXof.rejected = 0
    return RejectingXof


def rand_for(vdaf, g):
    return g.blob(vdaf.RAND_SIZE) if g.r.random() < 0.15 else g.r.randbytes(vdaf.RAND_SIZE)


def shard(vdaf, ctx, m, nonce, rand):
    """Client: returns the encoded public share and input shares."""
    pub, ins = vdaf.shard(ctx, m, nonce, rand)
    return vdaf.encode_public_share(pub), [vdaf.encode_input_share(x) for x in ins]


def per(x, j, n):
    return x[j] if isinstance(x, list) else x


def broadcast(vdaf, vk, ctx, agg_param, nonce, pub, ins, tamper=None, log=None):
    """All aggregators run every round over encoded messages. vdaf, vk, ctx,
    agg_param, nonce, pub may be lists with one entry per aggregator.
    tamper(stage, round, agg, data) -> data may replace a message in transit
    ('share' as sent, 'msg' as received by one aggregator).
    Returns the output shares (objects)."""
    n = len(ins)
    V = [per(vdaf, j, n) for j in range(n)]
    states, outb = [], []
    for j in range(n):
        v, p = V[j], per(pub, j, n)
        st, vs = v.verify_init(per(vk, j, n), per(ctx, j, n), j, per(agg_param, j, n), per(nonce, j, n),
                               v.decode_public_share(p), v.decode_input_share(j, ins[j]))
        states.append(st)
        outb.append(v.encode_verifier_share(vs))
    for rnd in range(V[0].ROUNDS):
        if tamper:
            outb = [tamper('share', rnd, j, b) for j, b in enumerate(outb)]
        if log is not None:
            log.append(('shares', rnd, list(outb)))
        v = V[0]
        msg = v.verifier_shares_to_message(
            per(ctx, 0, n), per(agg_param, 0, n), [v.decode_verifier_share(states[0], b) for b in outb])
        enc = v.encode_verifier_message(msg)
        if log is not None:
            log.append(('msg', rnd, enc))
        res = []
        for j in range(n):
            e = tamper('msg', rnd, j, enc) if tamper else enc
            res.append(V[j].verify_next(per(ctx, j, n), states[j], V[j].decode_verifier_message(states[j], e)))
        if rnd == V[0].ROUNDS - 1:
            return res
        states = [r[0] for r in res]
        outb = [V[j].encode_verifier_share(r[1]) for j, r in enumerate(res)]


def ints(vec):
    return [x.int() for x in vec]


def total(shares, p):
    """Element-wise sum of lists of field elements, as integers."""
    return [sum(c) % p for c in zip(*[ints(s) for s in shares])]


def aggregate(vdaf, agg_param, per_report, num):
    """per_report: list of lists of output shares. Through encoded out/agg shares."""
    n = vdaf.SHARES
    enc = []
    for j in range(n):
        a = vdaf.agg_init(agg_param)
        for outs in per_report:
            o = vdaf.decode_out_share(agg_param, vdaf.encode_out_share(outs[j]))
            a = vdaf.agg_update(agg_param, a, o)
        enc.append(vdaf.encode_agg_share(a))
    return vdaf.unshard(agg_param, [vdaf.decode_agg_share(agg_param, e) for e in enc], num)


def aggregate_many(vdaf, agg_param, per_report, times, doublings):
    """A large batch: the i-th report occurs times[i] times, and 2**doublings such batches are merged."""
    enc = []
    for j in range(vdaf.SHARES):
        a = vdaf.agg_init(agg_param)
        for outs, k in zip(per_report, times):
            for _ in range(k):
                a = vdaf.agg_update(agg_param, a, outs[j])
        for _ in range(doublings):
            b = vdaf.decode_agg_share(agg_param, vdaf.encode_agg_share(a))
            a = vdaf.merge(agg_param, [a, b])
        enc.append(vdaf.encode_agg_share(a))
    return vdaf.unshard(agg_param, [vdaf.decode_agg_share(agg_param, e) for e in enc], sum(times) << doublings)


def expect_total(d, ms):
    """The result prescribed for these measurements: sums are taken in the field."""
    C = circuit(d)
    t = C.total(ms)
    return [x % C.F.p for x in t] if isinstance(t, list) else t % C.F.p


def flip(data, bit):
    b = bytearray(data)
    b[bit // 8] ^= 1 << (bit % 8)
    return bytes(b)


def hx(b):
    return b.hex()
