"""Malicious clients for Prio3, built on the model."""
from vmon import ref


def cancelling_pair(g, p):
    """a, b not both in {0,1} with (a^2-a) + (b^2-b) = 0."""
    while True:
        a = g.r.randrange(2, p)
        q = (a * a - a) % p
        r = ref.quad_roots(1, -1, q, p)
        if r:
            return a, g.pick(r)


def cancelling_triple(g, p, want=1):
    """a+b+c = want and sum of x^2-x = 0, not all bits."""
    while True:
        c = g.r.randrange(2, p)
        s = (want - c) % p
        # a+b = s ; a^2+b^2 = want - c^2 ; 2ab = s^2 - (want - c^2)
        ab = (s * s - want + c * c) * pow(2, -1, p) % p
        r = ref.quad_roots(1, -s, ab, p)
        if r:
            a = g.pick(r)
            return a, (s - a) % p, c


def bad_value(g, p):
    return g.pick([2, 2, 3, p - 1, p - 1, p - 2, (p + 1) // 2, (p - 1) // 2, 4, 1 << 32, 2**31,
                   g.r.randrange(2, p), g.r.randrange(2, p)]) % p


def one_digit(g, d, C, q=None):
    """Multihot: proper counters, weight as reported, one digit of it not a bit."""
    p, L, w = C.F.p, d['length'], C.w
    q = g.pick([0, len(w) - 1, g.r.randrange(len(w))]) if q is None else q
    k = g.pick([0, 1, L, g.r.randint(0, L)])
    s = set(g.r.sample(range(L), k))
    b = [g.r.randrange(2) for _ in w]
    b[q] = 0
    b[q] = (k - sum(a * c for a, c in zip(b, w))) * pow(w[q], -1, p) % p
    return [int(i in s) for i in range(L)] + b


def invalid_vector(g, d, C):
    """Returns (label, vector) with C.valid(vector) False."""
    p, n = C.F.p, C.meas_len
    base = C.encode(g.meas(d))
    for _ in range(100):
        x = list(base)
        v = d['v']
        kind = g.pick(['single', 'single', 'pair', 'triple', 'many', 'swap', 'linear', 'linear', 'linear', 'adjacent'])
        i = g.pick([0, n - 1, g.r.randrange(n), g.r.randrange(n)])
        j = g.pick([0, n - 1, g.r.randrange(n), (i + 1) % n, (i + max(1, d.get('chunk', 1))) % n])
        if kind == 'single':
            x[i] = bad_value(g, p)
        elif kind == 'pair' and i != j:
            x[i], x[j] = cancelling_pair(g, p)
        elif kind == 'triple' and n >= 3:
            m = d['length'] if v in ('hist', 'mhot') else n
            if m < 3:
                continue
            i, j, k = g.r.sample(range(m), 3)
            if v == 'hist':
                x = [0] * n
            elif v == 'mhot':
                x = [0] * d['length'] + ref.enc_int(1, d['max'])
            x[i], x[j], x[k] = cancelling_triple(g, p)
        elif kind == 'adjacent' and n > 1:
            # two neighbours whose sum is as it should be
            i = g.pick([n - 2, n - 2, g.r.randrange(n - 1), g.r.randrange(n - 1)])
            a = bad_value(g, p)
            x[i], x[i + 1] = a, (x[i] + x[i + 1] - a) % p
        elif kind == 'many':
            x = [g.pick([0, 1, 2, p - 1, g.r.randrange(p)]) for _ in range(n)]
        elif kind == 'swap':
            x = [(1 - y) % p for y in x]
        elif kind == 'linear':
            # keep the linear (sum/weight) check satisfied, or break only it
            if v == 'hist':
                sub = g.pick(['two', 'zero', 'minus', 'halves', 'all'])
                x = [0] * n
                if sub == 'two' and n > 1:
                    k = g.pick([2, 2, 2, 3, g.r.randint(2, n)])
                    for q in g.r.sample(range(n), min(n, k)) if g.r.random() < 0.6 else (n - 1, i, j):
                        x[q] = 1
                elif sub == 'minus' and i != j:
                    x[i], x[j] = 2, p - 1
                elif sub == 'halves' and i != j:
                    x[i] = x[j] = (p + 1) // 2
                elif sub == 'all':
                    x = [1] * n
            elif v == 'mhot':
                sub = g.pick(['heavy', 'under', 'over', 'minus', 'weightbit', 'single', 'digit', 'digit'])
                L, w = d['length'], C.w
                if sub == 'heavy' and d['max'] < L:
                    k = g.r.randint(d['max'] + 1, L)
                    s = set(g.r.sample(range(L), k))
                    x = [int(q in s) for q in range(L)]
                    rep = g.pick([ref.enc_int(d['max'], d['max']),
                                  ref.enc_int(k % (d['max'] + 1), d['max']),
                                  # consistent but non-binary weight
                                  [k % p] + [0] * (len(w) - 1) if w[0] == 1 else [0] * len(w)])
                    x += rep
                elif sub in ('under', 'over'):
                    k = g.r.randint(0, d['max'])
                    s = set(g.r.sample(range(L), k))
                    o = g.pick([y for y in range(d['max'] + 1) if y != k] or [k])
                    if g.r.random() < 0.6:
                        # the weight without, or with twice, a part of the vector
                        a = g.pick([L - 1, 0, g.r.randrange(L)])
                        b = g.pick([L, a + 1, g.r.randint(a + 1, L)])
                        s = s | {g.pick([a, b - 1])} if len(s) < d['max'] else s
                        k = len(s)
                        o = min(max(k + g.pick([-1, -1, 1]) * len([q for q in s if a <= q < b]), 0), d['max'])
                    x = [int(q in s) for q in range(L)] + ref.enc_int(o, d['max'])
                elif sub == 'minus' and L > 1:
                    a, b = g.r.sample(range(L), 2)
                    x[a], x[b] = (x[a] + 1) % p, (x[b] - 1) % p
                elif sub == 'weightbit':
                    q = g.r.randrange(len(w))
                    x[L + q] = (x[L + q] + 1) % p
                    x[0] = (x[0] + w[q]) % p
                elif sub == 'digit':
                    x = one_digit(g, d, C)
                elif sub == 'single':
                    # a counter of 2 with the weight adjusted to match
                    k = g.r.randrange(L)
                    x = [0] * L + ref.enc_int(min(2, d['max']), d['max'])
                    x[k] = min(2, d['max'])
            elif v in ('sum', 'sumvec', 'mp') and n > 1:
                # same weighted total as an honest vector, non-binary digits
                w = C.w
                if len(w) > 1:
                    o = g.r.randrange(0, n, len(w))
                    a, b = g.r.sample(range(len(w)), 2)
                    x[o + a] = (x[o + a] + w[b]) % p
                    x[o + b] = (x[o + b] - w[a]) % p
        if not C.valid(x):
            return kind, x
    x = list(base)
    x[0] = 2
    return 'single', x


def forge_outputs(g, C, x, proof, jr):
    """Change gadget polynomial values in the proof so that every circuit output
    that depends on gadgets becomes zero."""
    F = C.F
    p = F.p
    proof = list(proof)
    gad, calls = C.gadgets[0], C.calls[0]
    P = ref.pow2(1 + calls)
    L = gad.degree * (P - 1) + 1
    step = ref.pow2(L) // P
    off = gad.arity
    if isinstance(C, ref.RCount):
        proof[off + step] = x[0] % p
    elif isinstance(C, ref.RSum):
        for k in range(1, calls + 1):
            proof[off + k * step] = 0
    else:
        tot = sum(proof[off + k * step] for k in range(1, calls + 1)) % p
        k = g.r.randint(1, calls)
        proof[off + k * step] = (proof[off + k * step] - tot) % p
    return proof


def fix_at(C, x, proof, t_list, jr, free=None, g=None):
    """Make the gadget test hold at the guessed point by moving one proof value
    that is not a circuit output."""
    F, p = C.F, C.F.p
    proof = list(proof)
    gad, calls = C.gadgets[0], C.calls[0]
    P = ref.pow2(1 + calls)
    L = gad.degree * (P - 1) + 1
    n = ref.pow2(L)
    step = n // P
    used = {k * step for k in range(1, calls + 1)}
    cand = [i for i in range(L) if i not in used]
    if not cand:
        return proof
    i = g.pick(cand)
    unit = [0] * L
    unit[i] = 1
    t = t_list[-1]
    if pow(t, n, p) == 1:
        return proof
    ci = ref.bary(F, L, n, unit, t)
    _, wires = ref.flp_wires(C, x, [proof[:gad.arity]], jr, 1, lambda a, b, inp: gad.ev(F, inp))
    want = gad.ev(F, [ref.bary(F, P, P, w, t) for w in wires[0]])
    have = ref.bary(F, L, n, proof[gad.arity:], t)
    proof[gad.arity + i] = (proof[gad.arity + i] + (want - have) * F.inv(ci)) % p
    return proof


def craft_for_jr(g, d, C, jr, base=None, tail=False):
    """An invalid vector whose circuit outputs are all zero for this joint
    randomness (a client that could choose the joint randomness first)."""
    p, ch = C.F.p, d['chunk']
    for _ in range(200):
        x = C.encode(g.meas(d)) if base is None else list(base)
        m = d['length'] if d['v'] in ('hist', 'mhot') else C.meas_len
        pool = range(max(0, m - 6), m) if tail else range(m)

        def coef(i):
            return pow(jr[i // ch], i % ch + 1, p)
        if d['v'] == 'hist':
            if m < 3:
                return None
            i, j, k = g.r.sample(pool, 3)
            if base is None:
                x = [0] * m
            tot = 1 - sum(y for q, y in enumerate(x) if q not in (i, j, k))
        elif d['v'] == 'mhot':
            if m < 3:
                return None
            i, j, k = g.r.sample(pool, 3)
            tot = min(1, d['max'])
            if base is None:
                x = [0] * d['length'] + ref.enc_int(tot, d['max'])
            else:
                tot = x[i] + x[j] + x[k]
        else:
            if m < 2:
                return None
            i, j = g.r.sample(pool, 2)
            x[i] = g.r.randrange(2, p)
            q = coef(i) * (x[i] * x[i] - x[i]) % p
            r = ref.quad_roots(coef(j), -coef(j), q, p)
            if not r:
                continue
            x[j] = g.pick(r)
            return x
        # a+b+c=tot, ci q(a)+cj q(b)+ck q(c)=0 with c = tot-a-b, a random
        a = g.r.randrange(2, p)
        ci, cj, ck = coef(i), coef(j), coef(k)
        s = (tot - a) % p            # b + c = s
        # cj(b^2-b) + ck((s-b)^2-(s-b)) + ci q(a) = 0
        A = cj + ck
        B = -cj + ck * (-2 * s + 1)
        Cc = ck * (s * s - s) + ci * (a * a - a)
        r = ref.quad_roots(A, B, Cc, p)
        if not r:
            continue
        b = g.pick(r)
        x[i], x[j], x[k] = a, b, (s - b) % p
        if not C.valid(x):
            return x
    return None


def linear(d, C, x):
    """The linear check of the circuit: (coefficients, value at x); None if it has none."""
    if d['v'] == 'hist':
        return [1] * C.meas_len, sum(x) - 1
    if d['v'] == 'mhot':
        l = [1] * d['length'] + [-w for w in C.w]
        return l, sum(a * b for a, b in zip(l, x))
    return None


def weights(g, d, C, flp, field, jr, qr, where, fast=False):
    """How much a non-bit at each position of `where` contributes to the reduced circuit output under this randomness: as seen in
    the verifier of the unshared data, or (fast) from the evaluated circuit. None if a valid vector gives something else than 0."""
    p = C.F.p

    def el(v):
        return [field(a) for a in v]
    pr = el(g.r.randrange(p) for _ in range(flp.PROVE_RAND_LEN))

    red = [g.r.randrange(p) for _ in range(flp.valid.EVAL_OUTPUT_LEN)] if fast else None

    def out(x):
        if fast:
            return sum(a * b.int() for a, b in zip(red, flp.valid.eval(el(x), jr, 1))) % p
        return flp.query(el(x), flp.prove(el(x), pr, jr), qr, jr, 1)[0].int()
    base = C.encode(g.meas(d))
    if out(base):
        return None
    scale = 0
    if linear(d, C, base):
        y = list(base)
        y[0] ^= 1
        scale = out(y) * pow(linear(d, C, y)[1], -1, p)
    got = {}
    for i in where:
        y = list(base)
        y[i] = 2
        lin = linear(d, C, y)
        got[i] = (out(y) - (scale * lin[1] if lin else 0)) * pow(2, -1, p) % p
    return got


def flips(g, d, C, flp, field, rands, where):
    """Invalid vectors, one or two bits away from a valid one, that the evaluated circuit does not tell from a valid one in two
    draws of the randomness."""
    p = C.F.p
    red = [[g.r.randrange(p) for _ in range(flp.valid.EVAL_OUTPUT_LEN)] for _ in range(2)]
    jrs = [rands()[0] for _ in range(2)]

    def out(x):
        return [sum(a * b.int() for a, b in zip(r, flp.valid.eval([field(y) for y in x], jr, 1))) % p for r, jr in zip(red, jrs)]

    def flip(*ps):
        y = list(base)
        for q in ps:
            y[q] ^= 1
        return y
    for _ in range(3):
        base = C.encode(g.meas(d))
        if linear(d, C, base) is None:
            return []
        if not any(out(base)):
            break
    else:
        return []
    got, seen, found = {}, {}, []
    for i in where:
        got[i] = tuple(out(flip(i)))
        if not any(got[i]) and not C.valid(flip(i)):
            found.append((f'bit {i} makes no difference', flip(i)))
        seen.setdefault(got[i], i)
    for i, o in got.items():
        j = seen.get(tuple(-a % p for a in o))
        if any(o) and j is not None and j != i and not C.valid(flip(i, j)):
            found.append((f'bits {i} and {j} cancel', flip(i, j)))
    return g.r.sample(found, min(4, len(found)))


def dependent(a, b, p):
    """Positions that contribute nothing in two independent runs, and pairs of positions whose contributions keep their ratio."""
    single = [i for i in a if a[i] == b[i] == 0]
    seen, pairs = {}, []
    for i in a:
        if a[i] and b[i]:
            q = a[i] * pow(b[i], -1, p) % p
            if q in seen:
                j = seen[q]
                pairs.append((j, i, a[i] * pow(a[j], -1, p) % p))
            seen[q] = i
    return single, pairs


def exploit(g, d, C, i, j=None, ratio=None):
    """A vector that only a client knowing of the dependency can have accepted."""
    p = C.F.p
    for _ in range(300):
        x = C.encode(g.meas(d))
        lin = linear(d, C, x)
        if lin:
            x = [g.r.randrange(2) for _ in x] if g.r.random() < 0.5 else x
            if d['v'] == 'hist' and g.r.random() < 0.5:
                x = [0] * C.meas_len
        if j is None:
            if lin is None:
                x[i] = g.r.randrange(2, p)
            else:
                l = lin[0]
                x[i] = 0
                x[i] = -linear(d, C, x)[1] * pow(l[i], -1, p) % p
        elif lin is None:
            x[i] = g.r.randrange(2, p)
            r = ref.quad_roots(ratio, -ratio, (x[i] * x[i] - x[i]) % p, p)
            if not r:
                continue
            x[j] = g.pick(r)
        else:
            l = lin[0]
            x[i] = x[j] = 0
            s = -linear(d, C, x)[1] % p
            # l_i a + l_j b = s and (a^2 - a) + ratio (b^2 - b) = 0
            u, w = s * pow(l[j], -1, p) % p, -l[i] * pow(l[j], -1, p) % p       # b = u + w a
            r = ref.quad_roots((1 + ratio * w * w) % p, (-1 + ratio * (2 * u * w - w)) % p, ratio * (u * u - u) % p, p)
            if not r:
                continue
            x[i] = g.pick(r)
            x[j] = (u + w * x[i]) % p
        if not C.valid(x):
            return x
    return None


def window(g, n, k):
    """At most k positions out of n: all, or runs at the start, at the end and in between."""
    if n <= k:
        return list(range(n))
    q = k // 3
    m = g.r.randrange(q, n - 2 * q + 1)
    return sorted(set(range(q)) | set(range(m, m + q)) | set(range(n - q, n)))


def narrow(g, v, slow):
    """Instances whose positions are probed one by one."""
    r = g.r
    if v == 'sum':
        return dict(v='sum', shares=2, max=r.getrandbits(g.pick([40, 52, 60, 62])) | 1 << 39)
    n = r.randint(40, 80) if slow else g.pick([r.randint(100, 300), r.randint(257, 350), r.randint(300, 1200)]) if v in ('hist', 'mhot') else r.randint(100, 300)
    if not slow and r.random() < 0.4:
        n = min(1500, (g.word(40, 1300) or n - 3) + r.randint(1, 9))
    d = dict(v=v, shares=2, length=n)
    if v == 'mhot':
        d['max'] = g.pick([n, 3 * n // 4, 5])
    if v in ('sumvec', 'mp'):
        d['max'] = g.pick([1, 3, 7])
        d['length'] = n // d['max'].bit_length() + 1
    if v == 'mp':
        d.update(field=g.pick(['Field64', 'Field96', 'Field128']), proofs=1)
    d['chunk'] = g.pick([n, n // 2 + 1, n // 3, r.randint(4, n), max(4, (n - 1) // r.randint(1, 5))] if slow else [1, 2, 3, 5, n // 3, n])
    return d


def dependencies(g, d, C, flp, field, rands, fast):
    """Vectors that exploit whatever dependency between positions shows in two draws of the randomness."""
    n = C.meas_len
    where = window(g, n, 330 if n < 350 else 100_000 // n)
    extra = flips(g, d, C, flp, field, rands, where) if fast else []
    a, b = [weights(g, d, C, flp, field, *rands(), where, fast) for _ in range(2)]
    if a is None or b is None:
        return extra or None
    single, pairs = dependent(a, b, C.F.p)
    out = extra
    for i in g.r.sample(single, min(2, len(single))):
        out.append((f'position {i} weighs nothing', exploit(g, d, C, i)))
    for i, j, q in g.r.sample(pairs, min(3, len(pairs))):
        out.append((f'positions {i} and {j} weigh the same up to {q}', exploit(g, d, C, i, j, q)))
        x = C.encode(g.meas(d))
        a = bad_value(g, C.F.p)
        x[i], x[j] = a, (x[i] + x[j] - a) % C.F.p
        if not C.valid(x):
            out.append((f'positions {i} and {j} weigh the same', x))
    return [x for x in out if x[1] is not None]
