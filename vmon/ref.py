"""
Independent model of the draft's algorithms, written from the text of the draft
on plain integers and byte strings. It shares no code with /repo; the only
trusted base is Cryptodome's TurboSHAKE128 and AES.

Nothing in here is used to *define* a property whose statement does not mention
the draft's bytes; the semantic checks use it as an adversarial client (a party
that can share arbitrary vectors) and as a source of valid inputs.
"""
from Cryptodome.Cipher import AES
from Cryptodome.Hash import TurboSHAKE128

VERSION = 18


# ---------------------------------------------------------------- fields

class RField:
    def __init__(self, name, p, size, gen=None, log_order=0):
        self.name, self.p, self.size, self.g, self.log_order = name, p, size, gen, log_order

    def root(self, n):
        """A primitive n-th root of unity (n a power of two)."""
        ln = n.bit_length() - 1
        assert 1 << ln == n and ln <= self.log_order
        return pow(self.g, 1 << (self.log_order - ln), self.p)

    def inv(self, x):
        return pow(x, -1, self.p)

    def enc(self, v):
        return b''.join(x.to_bytes(self.size, 'little') for x in v)

    def dec(self, b):
        n = self.size
        if len(b) % n:
            raise ValueError('length')
        v = [int.from_bytes(b[i:i + n], 'little') for i in range(0, len(b), n)]
        if any(x >= self.p for x in v):
            raise ValueError('range')
        return v


def _mk(name, k, m, size, base):
    p = (1 << k) * m + 1
    return RField(name, p, size, pow(base, m, p), k)


F64 = _mk('Field64', 32, 4294967295, 8, 7)
F96 = _mk('Field96', 64, 4294966555, 12, 3)
F128 = _mk('Field128', 66, 4611686018427387897, 16, 7)
F255 = RField('Field255', 2**255 - 19, 32)
FIELDS = {f.name: f for f in (F64, F96, F128, F255)}


def pow2(n):
    k = 1
    while k < n:
        k *= 2
    return k


# ---------------------------------------------------------------- polynomials (monomial, ints)

def p_eval(F, a, x):
    r = 0
    for c in reversed(a):
        r = (r * x + c) % F.p
    return r


def p_mul(F, a, b):
    if not a or not b:
        return []
    r = [0] * (len(a) + len(b) - 1)
    for i, x in enumerate(a):
        if x:
            for j, y in enumerate(b):
                r[i + j] += x * y
    return [x % F.p for x in r]


def p_add(F, a, b):
    n = max(len(a), len(b))
    return [((a[i] if i < len(a) else 0) + (b[i] if i < len(b) else 0)) % F.p for i in range(n)]


def dft(F, a, n, shift=1):
    """Evaluate a (coefficients, len <= n) at shift*w^i, i<n: direct recursion."""
    p = F.p
    c, s = [], 1
    for i in range(n):
        c.append((a[i] * s) % p if i < len(a) else 0)
        s = s * shift % p

    def rec(v, w):
        if len(v) == 1:
            return v
        e, o = rec(v[0::2], w * w % p), rec(v[1::2], w * w % p)
        h, t = len(v) // 2, 1
        out = [0] * len(v)
        for i in range(h):
            z = t * o[i] % p
            out[i], out[i + h] = (e[i] + z) % p, (e[i] - z) % p
            t = t * w % p
        return out
    return rec(c, F.root(n)) if n > 1 else c


def idft(F, v):
    n, p = len(v), F.p
    if n == 1:
        return list(v)
    a = dft(F, v, n)
    a = [a[0]] + a[:0:-1]
    ni = F.inv(n)
    return [x * ni % p for x in a]


def bary(F, n_nodes, n_root, vals, x):
    """Value at x of the polynomial of degree < n_nodes with the given values at
    w^0..w^(n_nodes-1), w a primitive n_root-th root of unity (direct Lagrange)."""
    p, w = F.p, F.root(n_root)
    xs = [pow(w, i, p) for i in range(n_nodes)]
    for xi, v in zip(xs, vals):
        if xi == x:
            return v
    ws = _bary_weights(F, n_nodes, n_root)
    ell = 1
    for xi in xs:
        ell = ell * (x - xi) % p
    s = 0
    for xi, wi, v in zip(xs, ws, vals):
        s = (s + wi * v * F.inv((x - xi) % p)) % p
    return ell * s % p


_WCACHE = {}


def _bary_weights(F, n_nodes, n_root):
    k = (F.name, n_nodes, n_root)
    if k not in _WCACHE:
        p, w = F.p, F.root(n_root)
        xs = [pow(w, i, p) for i in range(n_nodes)]
        out = []
        for i in range(n_nodes):
            d = 1
            for j in range(n_nodes):
                if i != j:
                    d = d * (xs[i] - xs[j]) % p
            out.append(F.inv(d))
        _WCACHE[k] = out
    return _WCACHE[k]


_ECACHE = {}


def extend_values(F, vals, n):
    """Given values at w^0..w^(L-1) (w primitive n-th root) of a polynomial of
    degree < L, return all n values. L in {n-1, n, 1} has shortcuts; generic
    otherwise."""
    L, p = len(vals), F.p
    if L == n:
        return list(vals)
    # generic: matrix of Lagrange basis values, cached
    k = (F.name, L, n)
    if k not in _ECACHE:
        w = F.root(n)
        xs = [pow(w, i, p) for i in range(n)]
        ws = _bary_weights(F, L, n)
        rows = []
        for t in range(L, n):
            ell = 1
            for i in range(L):
                ell = ell * (xs[t] - xs[i]) % p
            rows.append([ell * ws[i] * F.inv((xs[t] - xs[i]) % p) % p for i in range(L)])
        _ECACHE[k] = rows
    rows = _ECACHE[k]
    return list(vals) + [sum(a * b for a, b in zip(r, vals)) % p for r in rows]


# ---------------------------------------------------------------- XOFs

def le(n, l):
    return n.to_bytes(l, 'little')


def be(n, l):
    return n.to_bytes(l, 'big')


def turboshake(msg, dom, n):
    return TurboSHAKE128.new(domain=dom, data=msg).read(n)


class RXofTS:
    SEED = 32

    def __init__(self, seed, dst, binder):
        if len(dst) > 65535 or len(seed) > 255:
            raise ValueError('size')
        self.h = TurboSHAKE128.new(domain=1, data=le(len(dst), 2) + dst + le(len(seed), 1) + seed + binder)

    def next(self, n):
        return self.h.read(n) if n else b''


class RXofAES:
    SEED = 16

    def __init__(self, seed, dst, binder):
        if len(seed) != 16 or len(dst) > 65535:
            raise ValueError('size')
        key = turboshake(le(len(dst), 2) + dst + binder, 2, 16)
        self.c = AES.new(key, AES.MODE_ECB)
        self.seed = int.from_bytes(seed, 'little')
        self.buf, self.i = b'', 0

    def _block(self, i):
        b = (self.seed ^ i).to_bytes(16, 'little')
        lo, hi = b[:8], b[8:]
        s = hi + bytes(x ^ y for x, y in zip(hi, lo))
        return bytes(x ^ y for x, y in zip(self.c.encrypt(s), s))

    def next(self, n):
        while len(self.buf) < n:
            self.buf += self._block(self.i)
            self.i += 1
        r, self.buf = self.buf[:n], self.buf[n:]
        return r


def vec_from(stream, F, n):
    mask = pow2(F.p) - 1
    out = []
    while len(out) < n:
        x = int.from_bytes(stream.next(F.size), 'little') & mask
        if x < F.p:
            out.append(x)
    return out


def expand(F, seed, dst, binder, n, X=RXofTS):
    return vec_from(X(seed, dst, binder), F, n)


def derive(seed, dst, binder, X=RXofTS):
    return X(seed, dst, binder).next(X.SEED)


def dst(cls, algo, usage, ctx):
    return be(VERSION, 1) + be(cls, 1) + be(algo, 4) + be(usage, 2) + ctx


# ---------------------------------------------------------------- gadgets and circuits

class GMul:
    arity, degree = 2, 2

    def ev(self, F, v):
        return v[0] * v[1] % F.p

    def poly(self, F, ps):
        return p_mul(F, ps[0], ps[1])


class GPoly:
    arity = 1

    def __init__(self, coeffs):
        c = list(coeffs)
        while len(c) > 1 and c[-1] == 0:
            c.pop()
        self.c, self.degree = c, len(c) - 1

    def ev(self, F, v):
        return p_eval(F, self.c, v[0])

    def poly(self, F, ps):
        acc = []
        for c in reversed(self.c):
            acc = p_add(F, p_mul(F, acc, ps[0]), [c % F.p])
        return acc


class GSum:
    def __init__(self, sub, count):
        self.sub, self.count = sub, count
        self.arity, self.degree = sub.arity * count, sub.degree

    def ev(self, F, v):
        a = self.sub.arity
        return sum(self.sub.ev(F, v[i * a:(i + 1) * a]) for i in range(self.count)) % F.p

    def poly(self, F, ps):
        a = self.sub.arity
        r = []
        for i in range(self.count):
            r = p_add(F, r, self.sub.poly(F, ps[i * a:(i + 1) * a]))
        return r


def weights(maxv):
    bits = maxv.bit_length()
    return [1 << i for i in range(bits - 1)] + [maxv - ((1 << (bits - 1)) - 1)]


def enc_int(v, maxv):
    assert 0 <= v <= maxv
    w = weights(maxv)
    top = (1 << (len(w) - 1)) - 1
    last = 1 if v > top else 0
    rest = v - last * w[-1]
    return [(rest >> i) & 1 for i in range(len(w) - 1)] + [last]


class RCircuit:
    """Specification of one validity circuit: run(meas, jr, shares, call)."""
    jr_len = 0

    def prove_rand_len(self):
        return sum(g.arity for g in self.gadgets)

    def query_rand_len(self):
        return len(self.gadgets) + (self.eval_out if self.eval_out > 1 else 0)

    def proof_len(self):
        return sum(g.arity + g.degree * (pow2(1 + c) - 1) + 1 for g, c in zip(self.gadgets, self.calls))

    def verifier_len(self):
        return 1 + sum(g.arity + 1 for g in self.gadgets)

    def circuit(self, meas, jr, shares=1):
        return self.run(meas, jr, shares, lambda i, inp: self.gadgets[i].ev(self.F, inp))


class RCount(RCircuit):
    def __init__(self, F):
        self.F, self.gadgets, self.calls = F, [GMul()], [1]
        self.meas_len = self.out_len = self.eval_out = 1

    def encode(self, m):
        return [m]

    def truncate(self, v):
        return list(v)

    def valid(self, v):
        return v[0] in (0, 1)

    def run(self, meas, jr, shares, call):
        return [(call(0, [meas[0], meas[0]]) - meas[0]) % self.F.p]

    def total(self, ms):
        return sum(ms)


class RSum(RCircuit):
    def __init__(self, F, maxv):
        self.F, self.max = F, maxv
        self.w = weights(maxv)
        n = len(self.w)
        self.gadgets, self.calls = [GPoly([0, -1, 1])], [n]
        self.meas_len = self.eval_out = n
        self.out_len = 1

    def encode(self, m):
        return enc_int(m, self.max)

    def truncate(self, v):
        return [sum(a * b for a, b in zip(self.w, v)) % self.F.p]

    def valid(self, v):
        return all(x in (0, 1) for x in v)

    def run(self, meas, jr, shares, call):
        return [call(0, [b]) for b in meas]

    def total(self, ms):
        return sum(ms)


class _Chunked(RCircuit):
    def _setup(self, F, n, chunk):
        self.F, self.chunk = F, chunk
        self.gadgets, self.calls = [GSum(GMul(), chunk)], [-(-n // chunk)]
        self.meas_len, self.jr_len = n, -(-n // chunk)

    def _bits(self, meas, jr, shares, call):
        p = self.F.p
        inv = self.F.inv(shares % p)
        out = 0
        for i in range(self.calls[0]):
            r = jr[i]
            inp, rp = [], r
            for j in range(self.chunk):
                k = i * self.chunk + j
                x = meas[k] if k < len(meas) else 0
                inp += [rp * x % p, (x - inv) % p]
                rp = rp * r % p
            out += call(0, inp)
        return out % p


class RHistogram(_Chunked):
    eval_out = 2

    def __init__(self, F, length, chunk):
        self._setup(F, length, chunk)
        self.length = self.out_len = length

    def encode(self, m):
        return [1 if i == m else 0 for i in range(self.length)]

    def truncate(self, v):
        return list(v)

    def valid(self, v):
        return all(x in (0, 1) for x in v) and sum(v) == 1

    def run(self, meas, jr, shares, call):
        return [self._bits(meas, jr, shares, call), (sum(meas) - self.F.inv(shares)) % self.F.p]

    def total(self, ms):
        r = [0] * self.length
        for m in ms:
            r[m] += 1
        return r


class RMultihot(_Chunked):
    eval_out = 2

    def __init__(self, F, length, maxw, chunk):
        self.w = weights(maxw)
        self._setup(F, length + len(self.w), chunk)
        self.length, self.max, self.out_len = length, maxw, length

    def encode(self, m):
        return [int(x) for x in m] + enc_int(sum(map(int, m)), self.max)

    def truncate(self, v):
        return list(v[:self.length])

    def valid(self, v):
        return all(x in (0, 1) for x in v) and \
            sum(v[:self.length]) == sum(a * b for a, b in zip(self.w, v[self.length:]))

    def run(self, meas, jr, shares, call):
        rep = sum(a * b for a, b in zip(self.w, meas[self.length:]))
        return [self._bits(meas, jr, shares, call), (sum(meas[:self.length]) - rep) % self.F.p]

    def total(self, ms):
        return [sum(int(m[i]) for m in ms) for i in range(self.length)]


class RSumVec(_Chunked):
    eval_out = 1

    def __init__(self, F, length, maxv, chunk):
        self.w = weights(maxv)
        self._setup(F, length * len(self.w), chunk)
        self.length, self.max, self.out_len = length, maxv, length

    def encode(self, m):
        return [b for x in m for b in enc_int(x, self.max)]

    def truncate(self, v):
        n = len(self.w)
        return [sum(a * b for a, b in zip(self.w, v[i * n:(i + 1) * n])) % self.F.p for i in range(self.length)]

    def valid(self, v):
        return all(x in (0, 1) for x in v)

    def run(self, meas, jr, shares, call):
        return [self._bits(meas, jr, shares, call)]

    def total(self, ms):
        return [sum(m[i] for m in ms) for i in range(self.length)]


# ---------------------------------------------------------------- FLP

def flp_wires(C, meas, seeds_per_gadget, jr, shares, call):
    """Run the circuit recording wires; call(i, k, inp) gives the gadget output."""
    wires = []
    for g, c, s in zip(C.gadgets, C.calls, seeds_per_gadget):
        n = pow2(1 + c)
        wires.append([[s[j]] + [0] * (n - 1) for j in range(g.arity)])
    cnt = [0] * len(C.gadgets)

    def wrapped(i, inp):
        cnt[i] += 1
        for j, x in enumerate(inp):
            wires[i][j][cnt[i]] = x % C.F.p
        return call(i, cnt[i], inp)
    out = C.run(meas, jr, shares, wrapped)
    return out, wires


def flp_prove(C, meas, prove_rand, jr):
    F = C.F
    seeds, k = [], 0
    for g in C.gadgets:
        seeds.append(prove_rand[k:k + g.arity])
        k += g.arity
    _, wires = flp_wires(C, meas, seeds, jr, 1, lambda i, k, inp: C.gadgets[i].ev(F, inp))
    proof = []
    for g, c, s, w in zip(C.gadgets, C.calls, seeds, wires):
        L = g.degree * (pow2(1 + c) - 1) + 1
        coeffs = g.poly(F, [idft(F, x) for x in w])
        n = pow2(L)
        proof += list(s) + dft(F, coeffs[:n] if len(coeffs) <= n else coeffs, n)[:L]
    return proof


def flp_query(C, meas, proof, query_rand, jr, shares):
    F = C.F
    seeds, polys, k = [], [], 0
    for g, c in zip(C.gadgets, C.calls):
        n = pow2(1 + c)
        L = g.degree * (n - 1) + 1
        seeds.append(proof[k:k + g.arity])
        k += g.arity
        polys.append(extend_values(F, proof[k:k + L], pow2(L)))
        k += L
    assert k == len(proof)

    def call(i, kk, inp):
        step = len(polys[i]) // pow2(1 + C.calls[i])
        return polys[i][kk * step]
    out, wires = flp_wires(C, meas, seeds, jr, shares, call)
    q = list(query_rand)
    if C.eval_out > 1:
        v = sum(a * b for a, b in zip(q, out)) % F.p
        q = q[C.eval_out:]
    else:
        v = out[0]
    ver = [v]
    for g, w, poly, t in zip(C.gadgets, wires, polys, q):
        if pow(t, len(w[0]), F.p) == 1:
            raise ValueError('root of unity')
        ver += [p_eval(F, idft(F, x), t) for x in w]
        ver.append(p_eval(F, idft(F, poly), t))
    return ver


def flp_decide(C, ver):
    if ver[0] != 0:
        return False
    k = 1
    for g in C.gadgets:
        if g.ev(C.F, ver[k:k + g.arity]) != ver[k + g.arity]:
            return False
        k += g.arity + 1
    return True


# ---------------------------------------------------------------- Prio3

class RPrio3:
    NONCE = 16

    def __init__(self, algo, C, shares, proofs=1, X=RXofTS):
        self.algo, self.C, self.F, self.n, self.k, self.X = algo, C, C.F, shares, proofs, X
        self.jr = C.jr_len > 0
        self.rand_size = shares * X.SEED * (2 if self.jr else 1)

    def d(self, usage, ctx):
        return dst(0, self.algo, usage, ctx)

    def meas_share(self, ctx, j, seed):
        return expand(self.F, seed, self.d(1, ctx), be(j, 1), self.C.meas_len, self.X)

    def proofs_share(self, ctx, j, seed):
        return expand(self.F, seed, self.d(2, ctx), be(self.k, 1) + be(j, 1), self.C.proof_len() * self.k, self.X)

    def prove_rands(self, ctx, seed):
        return expand(self.F, seed, self.d(4, ctx), be(self.k, 1), self.C.prove_rand_len() * self.k, self.X)

    def query_rands(self, vk, ctx, nonce):
        return expand(self.F, vk, self.d(5, ctx), be(self.k, 1) + nonce, self.C.query_rand_len() * self.k, self.X)

    def part(self, ctx, j, blind, ms, nonce):
        return derive(blind, self.d(7, ctx), be(j, 1) + nonce + self.F.enc(ms), self.X)

    def jr_seed(self, ctx, parts):
        return derive(bytes(self.X.SEED), self.d(6, ctx), b''.join(parts), self.X)

    def jrs(self, ctx, seed):
        return expand(self.F, seed, self.d(3, ctx), be(self.k, 1), self.C.jr_len * self.k, self.X)

    def split_rand(self, rand):
        l = self.X.SEED
        s = [rand[i:i + l] for i in range(0, len(rand), l)]
        if self.jr:
            hs = s[:2 * (self.n - 1)]
            return hs[0::2], hs[1::2], s[2 * (self.n - 1)], s[2 * (self.n - 1) + 1]
        return s[:self.n - 1], [None] * (self.n - 1), None, s[self.n - 1]

    def shard_vec(self, ctx, meas, nonce, rand, forge=None):
        """Share an arbitrary encoded vector. forge(jr_list, prove_rand_list) may
        replace the list of proofs."""
        p = self.F.p
        seeds, blinds, lblind, pseed = self.split_rand(rand)
        hm = [self.meas_share(ctx, j + 1, s) for j, s in enumerate(seeds)]
        lm = [(x - sum(h[i] for h in hm)) % p for i, x in enumerate(meas)]
        parts, jrs = None, []
        if self.jr:
            parts = [self.part(ctx, 0, lblind, lm, nonce)] + \
                [self.part(ctx, j + 1, blinds[j], hm[j], nonce) for j in range(self.n - 1)]
            jrs = self.jrs(ctx, self.jr_seed(ctx, parts))
        pr = self.prove_rands(ctx, pseed)
        a, b = self.C.prove_rand_len(), self.C.jr_len
        prl = [pr[i * a:(i + 1) * a] for i in range(self.k)]
        jrl = [jrs[i * b:(i + 1) * b] for i in range(self.k)]
        proofs = forge(jrl, prl) if forge else [flp_prove(self.C, meas, x, y) for x, y in zip(prl, jrl)]
        flat = [x for q in proofs for x in q]
        hp = [self.proofs_share(ctx, j + 1, s) for j, s in enumerate(seeds)]
        lp = [(x - sum(h[i] for h in hp)) % p for i, x in enumerate(flat)]
        pub = b''.join(parts) if self.jr else b''
        ins = [self.F.enc(lm) + self.F.enc(lp) + (lblind or b'')] + \
            [s + (b or b'') for s, b in zip(seeds, blinds)]
        return pub, ins

    def shard(self, ctx, m, nonce, rand):
        return self.shard_vec(ctx, self.C.encode(m), nonce, rand)

    def verify_init(self, vk, ctx, j, nonce, pub, inp):
        """Returns ((out_share, corrected seed), encoded verifier share)."""
        S = self.X.SEED
        if j == 0:
            nm, npf = self.C.meas_len * self.F.size, self.C.proof_len() * self.k * self.F.size
            ms, pf = self.F.dec(inp[:nm]), self.F.dec(inp[nm:nm + npf])
            blind = inp[nm + npf:]
        else:
            ms, pf = self.meas_share(ctx, j, inp[:S]), self.proofs_share(ctx, j, inp[:S])
            blind = inp[S:]
        jrs, part, seed = [], b'', None
        if self.jr:
            part = self.part(ctx, j, blind, ms, nonce)
            parts = [pub[i * S:(i + 1) * S] for i in range(self.n)]
            parts[j] = part
            seed = self.jr_seed(ctx, parts)
            jrs = self.jrs(ctx, seed)
        q = self.query_rands(vk, ctx, nonce)
        a, b, c = self.C.proof_len(), self.C.query_rand_len(), self.C.jr_len
        ver = []
        for i in range(self.k):
            ver += flp_query(self.C, ms, pf[i * a:(i + 1) * a], q[i * b:(i + 1) * b], jrs[i * c:(i + 1) * c], self.n)
        return (self.C.truncate(ms), seed), self.F.enc(ver) + part

    def to_message(self, ctx, vshares):
        nv = self.C.verifier_len() * self.k
        tot, parts = [0] * nv, []
        for v in vshares:
            x = self.F.dec(v[:nv * self.F.size])
            tot = [(a + b) % self.F.p for a, b in zip(tot, x)]
            parts.append(v[nv * self.F.size:])
        n = self.C.verifier_len()
        for i in range(self.k):
            if not flp_decide(self.C, tot[i * n:(i + 1) * n]):
                raise ValueError('rejected')
        return self.jr_seed(ctx, parts) if self.jr else b''


# ---------------------------------------------------------------- IDPF

def bxor(a, b):
    return bytes(x ^ y for x, y in zip(a, b))


class RIdpf:
    def __init__(self, value_len, bits):
        self.vl, self.bits = value_len, bits

    def fld(self, level):
        return F64 if level < self.bits - 1 else F255

    def xof(self, level, seed, usage, ctx, nonce):
        X = RXofAES if level < self.bits - 1 else RXofTS
        return X(seed, dst(1, 0, usage, ctx), nonce)

    def extend(self, level, seed, ctx, nonce):
        b = self.xof(level, seed, 0, ctx, nonce).next(32)
        s = [bytearray(b[:16]), bytearray(b[16:])]
        t = [s[0][0] & 1, s[1][0] & 1]
        s[0][0] &= 0xfe
        s[1][0] &= 0xfe
        return [bytes(s[0]), bytes(s[1])], t

    def convert(self, level, seed, ctx, nonce):
        x = self.xof(level, seed, 1, ctx, nonce)
        ns = x.next(16)
        return ns, vec_from(x, self.fld(level), self.vl)

    def gen(self, alpha, betas, ctx, nonce, rand):
        """betas: one list of ints per level. Returns (cws, keys)."""
        keys = [rand[:16], rand[16:]]
        s, t = list(keys), [0, 1]
        cws = []
        for lv in range(self.bits):
            a = int(alpha[lv])
            (e0, u0), (e1, u1) = self.extend(lv, s[0], ctx, nonce), self.extend(lv, s[1], ctx, nonce)
            scw = bxor(e0[1 - a], e1[1 - a])
            tcw = [u0[0] ^ u1[0] ^ a ^ 1, u0[1] ^ u1[1] ^ a]
            x, nt = [None, None], [None, None]
            for b, (e, u) in enumerate(((e0, u0), (e1, u1))):
                x[b] = bxor(e[a], scw) if t[b] else e[a]
                nt[b] = u[a] ^ (tcw[a] if t[b] else 0)
            t = nt
            F = self.fld(lv)
            s0, w0 = self.convert(lv, x[0], ctx, nonce)
            s1, w1 = self.convert(lv, x[1], ctx, nonce)
            s = [s0, s1]
            w = [(b - p0 + p1) % F.p for b, p0, p1 in zip(betas[lv], w0, w1)]
            if t[1]:
                w = [-y % F.p for y in w]
            cws.append((scw, tcw, w))
        return cws, keys

    def eval(self, b, cws, key, level, prefixes, ctx, nonce, cache=None):
        F = self.fld(level)
        cache = {} if cache is None else cache
        out = []
        for pf in prefixes:
            node = (key, b)
            for lv in range(level + 1):
                k = (b, pf[:lv + 1])
                if k in cache:
                    node, y = cache[k]
                    continue
                s, t = node
                e, u = self.extend(lv, s, ctx, nonce)
                scw, tcw, w = cws[lv]
                bit = int(pf[lv])
                x, nt = e[bit], u[bit]
                if t:
                    x, nt = bxor(x, scw), nt ^ tcw[bit]
                ns, y = self.convert(lv, x, ctx, nonce)
                if nt:
                    y = [(p0 + p1) % self.fld(lv).p for p0, p1 in zip(y, w)]
                node = (ns, nt)
                cache[k] = (node, y)
            out.append([v if b == 0 else -v % F.p for v in y])
        return out

    def enc_public(self, cws):
        bits = [x for c in cws for x in c[1]]
        buf = bytearray((len(bits) + 7) // 8)
        for i, x in enumerate(bits):
            buf[i // 8] |= x << (i % 8)
        return bytes(buf) + b''.join(c[0] for c in cws) + \
            b''.join(self.fld(i).enc(c[2]) for i, c in enumerate(cws))

    def dec_public(self, b):
        n = (2 * self.bits + 7) // 8
        bits = [(b[i // 8] >> (i % 8)) & 1 for i in range(2 * self.bits)]
        o, seeds, ws = n, [], []
        for _ in range(self.bits):
            seeds.append(b[o:o + 16])
            o += 16
        for lv in range(self.bits):
            l = self.fld(lv).size * self.vl
            ws.append(self.fld(lv).dec(b[o:o + l]))
            o += l
        assert o == len(b)
        return [(seeds[i], [bits[2 * i], bits[2 * i + 1]], ws[i]) for i in range(self.bits)]


# ---------------------------------------------------------------- Poplar1

class RPoplar1:
    ALGO = 6

    def __init__(self, bits):
        self.bits, self.idpf = bits, RIdpf(2, bits)
        self.rand_size = 3 * 32 + 32

    def fld(self, level):
        return self.idpf.fld(level)

    def d(self, usage, ctx):
        return dst(0, self.ALGO, usage, ctx)

    def shard(self, ctx, alpha, nonce, rand, data=None, auth_add=None, hook=None):
        """data[lv]: programmed data value (default 1); auth_add[lv] is added to
        the programmed authenticator only (not to the correlations)."""
        irand, cs, ss = rand[:32], [rand[32:64], rand[64:96]], rand[96:128]
        x = RXofTS(ss, self.d(1, ctx), nonce)
        ks = vec_from(x, F64, self.bits - 1) + vec_from(x, F255, 1)
        betas = []
        for lv in range(self.bits):
            p = self.fld(lv).p
            betas.append([(1 if data is None else data[lv]) % p,
                          (ks[lv] + (auth_add[lv] if auth_add else 0)) % p])
        cws, keys = self.idpf.gen(alpha, betas, ctx, nonce, irand)
        off = []
        for usage, F, n in ((2, F64, 3 * (self.bits - 1)), (3, F255, 3)):
            v = [expand(F, cs[b], self.d(usage, ctx), be(b, 1) + nonce, n) for b in (0, 1)]
            off += [(p + q) % F.p for p, q in zip(*v)]
        inner, leaf = [[], []], None
        for lv in range(self.bits):
            F = self.fld(lv)
            a, b, c = off[3 * lv:3 * lv + 3]
            A, B = (-2 * a + ks[lv]) % F.p, (a * a + b - a * ks[lv] + c) % F.p
            if hook:
                A, B = hook(lv, A, B)
            c1 = vec_from(x, F, 2)
            c0 = [(A - c1[0]) % F.p, (B - c1[1]) % F.p]
            if lv < self.bits - 1:
                inner[0] += c0
                inner[1] += c1
            else:
                leaf = [c0, c1]
        ins = [(keys[b], cs[b], inner[b], leaf[b]) for b in (0, 1)]
        return self.idpf.enc_public(cws), [self.enc_input(i) for i in ins]

    def enc_input(self, i):
        return i[0] + i[1] + F64.enc(i[2]) + F255.enc(i[3])

    def dec_input(self, b):
        n = 48 + 16 * (self.bits - 1)
        return b[:16], b[16:48], F64.dec(b[48:n]), F255.dec(b[n:])

    def verify_init(self, vk, ctx, b, agg_param, nonce, pub, inp, cache=None):
        """Returns (state, encoded round-0 share); state = [A, B, b, out...]."""
        level, prefixes = agg_param
        key, cs, inner, leaf = self.dec_input(inp)
        F = self.fld(level)
        val = self.idpf.eval(b, self.idpf.dec_public(pub), key, level, prefixes, ctx, nonce, cache)
        last = level == self.bits - 1
        x = RXofTS(cs, self.d(3 if last else 2, ctx), be(b, 1) + nonce)
        if not last:
            vec_from(x, F, 3 * level)
        sk = vec_from(x, F, 3)
        A, B = leaf if last else inner[2 * level:2 * level + 2]
        rs = vec_from(RXofTS(vk, self.d(4, ctx), nonce + be(level, 2)), F, len(prefixes))
        for r, (dv, av) in zip(rs, val):
            sk[0] += dv * r
            sk[1] += dv * r * r
            sk[2] += av * r
        sk = [y % F.p for y in sk]
        return (level, A, B, b, [v[0] for v in val]), F.enc(sk)

    def next0(self, st, msg):
        level, A, B, b, out = st
        F = self.fld(level)
        z = F.dec(msg)
        return F.enc([(b * (z[0] * z[0] - z[1] - z[2]) + A * z[0] + B) % F.p])

    def to_message(self, level, shares):
        F = self.fld(level)
        v = [F.dec(s) for s in shares]
        t = [(p + q) % F.p for p, q in zip(*v)]
        if len(t) == 3:
            return F.enc(t)
        if t == [0]:
            return b''
        raise ValueError('rejected')

    def enc_agg_param(self, agg_param):
        level, prefixes = agg_param
        out = be(level, 2) + be(len(prefixes), 4)
        n = (level + 8) // 8
        for p in prefixes:
            x = 0
            for b in p:
                x = 2 * x + int(b)
            out += be(x << (8 * n - level - 1), n)
        return out


def poplar1_valid(param, history):
    """Specification of aggregation-parameter validity."""
    level, prefixes = param
    ps = [tuple(bool(b) for b in p) for p in prefixes]
    for a, b in zip(ps, ps[1:]):
        if not a < b:
            return False
    if not history:
        return True
    ll, lp = history[-1]
    if not level > ll:
        return False
    lp = {tuple(bool(b) for b in p) for p in lp}
    return all(p[:ll + 1] in lp for p in ps)


def sqrt_mod(a, p):
    """A square root of a modulo p, or None (Tonelli-Shanks)."""
    a %= p
    if a == 0:
        return 0
    if pow(a, (p - 1) // 2, p) != 1:
        return None
    q, s = p - 1, 0
    while q % 2 == 0:
        q //= 2
        s += 1
    z = 2
    while pow(z, (p - 1) // 2, p) != p - 1:
        z += 1
    m, c, t, r = s, pow(z, q, p), pow(a, q, p), pow(a, (q + 1) // 2, p)
    while t != 1:
        i, u = 0, t
        while u != 1:
            u = u * u % p
            i += 1
        b = pow(c, 1 << (m - i - 1), p)
        m, c = i, b * b % p
        t, r = t * c % p, r * b % p
    return r


def quad_roots(a, b, c, p):
    """Roots of a x^2 + b x + c."""
    if a % p == 0:
        return [] if b % p == 0 else [-c * pow(b, -1, p) % p]
    s = sqrt_mod(b * b - 4 * a * c, p)
    if s is None:
        return []
    i = pow(2 * a, -1, p)
    return [(-b + s) * i % p, (-b - s) * i % p]
