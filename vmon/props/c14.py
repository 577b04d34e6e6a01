"""C14: polynomial transforms and evaluation agree with schoolbook algebra."""
from vmon import gen, ref
from vmon.gen import G

RULE = ('One evaluation runs one transform, product, evaluation, interpolation or extension on generated coefficient or value '
        'vectors (random, zero, constant, sparse, maximal, periodic, symmetric, few-valued, shorter than the transform) and compares every output element with '
        'direct integer computation (Horner evaluation, convolution, interpolation polynomial). Evaluation points include the '
        'nodes, zero, one and shifted nodes. Non-trivial: distinct (field, operation, size, input).')
NEED = dict(transforms=2500, products=1200, evaluations=4000, node_evaluations=800, interpolations=500, extensions=400, batched=400, patterned_values=300, long_products=200, large_transforms=20)


NTT = ('Field64', 'Field96', 'Field128')


def cases(c):
    out = []
    g = G(c.rng)
    for f in NTT:
        for lg in range(0, 9):
            for _ in range(c.n(60 if lg < 6 else 12, 500 if lg < 6 else 80)):
                out.append(('ntt', dict(f=f, n=1 << lg)))
        for lg in (9, 10):
            out.append(('ntt', dict(f=f, n=1 << lg)))
        for lg in range(0, 7):
            for _ in range(c.n(60, 600)):
                out.append(('lagrange', dict(f=f, n=1 << lg)))
        for lg in (7, 8, 9):
            for _ in range(c.n(6 if lg < 9 else 2, 40)):
                out.append(('lagrange', dict(f=f, n=1 << lg)))
        for lg in (0, 1, 2, 3):
            for m in [33, 65, 130, 300] + [w + 1 for w in g.words(6, 3000)]:
                out.append(('lagrange', dict(f=f, n=1 << lg, m=m)))
        for n in [33, 48, 63, 64, 65, 100, 127, 128, 129, 200] + [w + 1 for w in g.words(16, 300)]:
            out.append(('extend', dict(f=f, k=n)))
        for n in list(range(1, 17)) + [17, 20, 31, 32]:
            for _ in range(c.n(12, 100)):
                out.append(('extend', dict(f=f, k=n)))
        out.append(('roots', dict(f=f)))
    for f in ref.FIELDS:
        for _ in range(c.n(400, 4000)):
            out.append(('mono', dict(f=f)))
        for _ in range(c.n(80, 800)):
            out.append(('mono', dict(f=f, big=True)))
        for _ in range(c.n(6, 60)):
            out.append(('interp', dict(f=f, big=True)))
        for _ in range(c.n(150, 1500)):
            out.append(('interp', dict(f=f)))
    return out


def vec(g, p, n):
    x = g.r.random()
    if x < 0.1:
        return [0] * n
    if x < 0.17:
        return [g.fe(p)] * n
    if x < 0.25:
        v = [0] * n
        if n:
            v[g.pick([0, n - 1, g.r.randrange(n)])] = g.fe(p)
        return v
    if x < 0.3:
        return [p - 1] * n
    if x < 0.4:
        v = [g.fe(p) for _ in range(n)]
        for i in range(g.r.randint(0, n)):
            v[n - 1 - i] = 0
        return v
    if x < 0.6 and n > 1:
        return pattern(g, p, n)
    return [g.fe(p) for _ in range(n)]


def pattern(g, p, n):
    """Coinciding, periodic, symmetric and few-valued entries."""
    k = g.pick(['two', 'two', 'small', 'period', 'mirror', 'anti', 'almost', 'geometric', 'ends'])
    if k in ('two', 'small'):
        a = [g.fe(p), g.fe(p)] if k == 'two' else [0, 1, 2]
        v = [g.pick(a) for _ in range(n)]
    elif k == 'period':
        q = g.r.randint(1, n)
        a = [g.fe(p) for _ in range(q)]
        v = [a[i % q] for i in range(n)]
    elif k in ('mirror', 'anti'):
        v = [g.fe(p) for _ in range(n)]
        for i in range(n // 2):
            v[n - 1 - i] = v[i] if k == 'mirror' else -v[i] % p
    elif k == 'almost':
        v = [g.fe(p)] * n
        v[g.pick([0, n - 1, n // 2, g.r.randrange(n)])] = g.fe(p)
    elif k == 'geometric':
        a, b = g.fe(p), g.r.randrange(p)
        v = [a * pow(b, i, p) % p for i in range(n)]
    else:
        a = g.fe(p)
        v = [g.fe(p) for _ in range(n)]
        for i in g.pick([(0, n - 1), (0, n // 2, n - 1), (0, 1, n - 1), (0, n // 2)]):
            v[i] = a
    return v


def inverse(F, v, n):
    """Coefficients of the polynomial with these values at the n-th roots of unity."""
    c = ref.dft(F, v, n)
    q = F.inv(n % F.p)
    c = [c[-i % n] * q % F.p for i in range(n)]
    assert ref.dft(F, c, n) == list(v)
    return c


def strip(v):
    v = list(v)
    while v and v[-1] == 0:
        v.pop()
    return v


def run(case, rng, mon):
    g = G(rng)
    R = gen.repo()
    name, kind = case['p']['f'], case['kind']
    F, f = ref.FIELDS[name], gen.fld(name)
    p = F.p

    def el(v):
        return [f(x) for x in v]

    def chk(got, want, what, key):
        mon.ok(gen.ints(got) == want, lambda: f'{name} {what}: got {gen.ints(got)[:8]}, expected {want[:8]}')
        mon.ok(all(type(e) is f for e in got), f'{name} {what}: element types')
        mon.case(name, kind, *key)

    if kind == 'roots':
        mon.eq(f.GEN_ORDER, 1 << F.log_order, f'{name}.GEN_ORDER')
        mon.eq(f.gen().int(), F.g, f'{name}.gen()')
        for k in range(F.log_order + 1):
            r = f.nth_root(k).int()
            mon.eq(pow(r, 1 << k, p), 1, f'{name}.nth_root({k}) order')
            mon.ok(k == 0 or pow(r, 1 << (k - 1), p) == p - 1, f'{name}.nth_root({k}) is not primitive')
            mon.eq(r, F.root(1 << k), f'{name}.nth_root({k})')
            mon.case(name, 'root', k)
        for lg in range(0, 9):
            n = 1 << lg
            w = F.root(n)
            chk(f.nth_root_powers(n), [pow(w, i, p) for i in range(n)], f'nth_root_powers({n})', ('rp', n))
        for n in (0, 3, 5, 6, 7, 9, 12, 100):
            for what, fn in (('nth_root_powers', lambda: f.nth_root_powers(n)), ('ntt', lambda: f.ntt(el([1] * min(n, 3)), n)),
                             ('inv_ntt', lambda: f.inv_ntt(el([1] * min(n, 3)), n))):
                mon.raises(f'{name} {what} of size {n}', fn)
    elif kind == 'ntt':
        n = case['p']['n']
        k = g.pick([n, n, n, max(0, n - 1), n // 2, min(1, n), 0, g.r.randint(0, n), (n // 2 + 1) % (n + 1)])
        a = vec(g, p, k)
        w = F.root(n)
        s = F.root(2 * n)
        if n <= 64:
            plain = [ref.p_eval(F, a, pow(w, i, p)) for i in range(n)]
            shifted = [ref.p_eval(F, a, s * pow(w, i, p) % p) for i in range(n)]
        else:
            plain, shifted = ref.dft(F, a, n), ref.dft(F, a, n, s)
            for _ in range(3):
                i = g.r.randrange(n)
                assert plain[i] == ref.p_eval(F, a, pow(w, i, p))
        x = el(a)
        chk(f.ntt(x, n), plain, f'ntt of {k} coefficients, size {n}', ('ntt', n, str(a)))
        chk(f.ntt(x, n, True), shifted, f'shifted ntt of {k} coefficients, size {n}', ('ntts', n, str(a)))
        chk(f.inv_ntt(el(plain), n), a + [0] * (n - k), f'inverse ntt, size {n}', ('inv', n, str(a)))
        # values given only partly mean zeros
        b = vec(g, p, g.r.randint(0, n))
        y = f.inv_ntt(el(b), n)
        yi = gen.ints(y)
        full = b + [0] * (n - len(b))
        mon.ok(len(yi) == n and (ref.dft(F, yi, n) == full), f'{name} inverse ntt of {len(b)} values, size {n}')
        mon.ok(gen.ints(x) == a, f'{name}: ntt changed its input')
        mon.ev('transforms', 4)
        mon.sample(f'ntt-{name}', n=n, coefficients=a[:6])
    elif kind == 'lagrange':
        n = case['p']['n']
        L = R.field.Lagrange(f)
        w = F.root(n)
        nodes = [pow(w, i, p) for i in range(n)]
        a, b = vec(g, p, n), vec(g, p, n)          # coefficients
        va, vb = ref.dft(F, a, n), ref.dft(F, b, n)
        if n > 1 and g.r.random() < 0.5:           # values of a special form
            va = pattern(g, p, n)
            a = inverse(F, va, n)
            if g.r.random() < 0.3:
                vb = pattern(g, p, n)
                b = inverse(F, vb, n)
            mon.ev('patterned_values')
        pts = [g.fe(p), g.fe(p), 0, 1, p - 1, g.pick(nodes), nodes[-1], nodes[0], F.root(2 * n), F.root(2 * n) * g.pick(nodes) % p,
               (g.pick(nodes) + 1) % p]
        for x in pts:
            got = L.poly_eval(el(va), f(x))
            mon.eq(got.int(), ref.p_eval(F, a, x), f'{name} Lagrange evaluation, size {n}, at {x} of {a[:6]}')
            mon.ev('evaluations')
            if x in nodes:
                mon.ev('node_evaluations')
            mon.case(name, 'leval', n, x, str(a))
        m = case['p'].get('m') or g.r.randint(1, 5)
        mon.ev('large_transforms', int(n > 64))
        cs = [vec(g, p, n) for _ in range(m)]
        x = g.pick(pts)
        chk(L.poly_eval_batched([el(ref.dft(F, c, n)) for c in cs], f(x)), [ref.p_eval(F, c, x) for c in cs],
            f'batched evaluation of {m} polynomials, size {n}, at {x}', ('batch', n, x, str(cs)))
        mon.ev('batched')
        if n <= 512:
            prod = ref.p_mul(F, a, b)
            chk(L.poly_mul(el(va), el(vb)), ref.dft(F, prod, 2 * n), f'Lagrange product, size {n}', ('lmul', n, str(a), str(b)))
            chk(L.poly_mul(el(va), el(va)), ref.dft(F, ref.p_mul(F, a, a), 2 * n), f'Lagrange square, size {n}', ('lsq', n, str(a)))
            mon.ev('products', 2)
        chk(L.double_evaluations(el(va)), ref.dft(F, a, 2 * n), f'double_evaluations, size {n}', ('dbl', n, str(a)))
        mon.sample(f'lagrange-{name}', n=n, coefficients=a[:5])
    elif kind == 'extend':
        k = case['p']['k']
        n = ref.pow2(k) * g.pick([1, 1, 2, 4])
        L = R.field.Lagrange(f)
        a = vec(g, p, k)
        full = ref.dft(F, a, n)
        x = el(full[:k])
        L.extend_values_to_power_of_2(x, n)
        chk(x, full, f'extension of {k} values to {n}', ('ext', k, n, str(a)))
        mon.ev('extensions', 2)
        # arbitrary values
        v = vec(g, p, k)
        x = el(v)
        L.extend_values_to_power_of_2(x, n)
        w = F.root(n)
        want = v + [ref.bary(F, k, n, v, pow(w, t, p)) for t in range(k, n)]
        chk(x, want, f'extension of {k} arbitrary values to {n}', ('ext2', k, n, str(v)))
        if k > 1:
            mon.raises(f'{name} extension of {k} values to fewer', L.extend_values_to_power_of_2, el(v), ref.pow2(k) // 2)
        mon.sample(f'extend-{name}', k=k, n=n, values=v[:5])
    elif kind == 'mono':
        na, nb = g.size(0, 20, (0, 1, 2)), g.size(0, 20, (0, 1, 2))
        if case['p'].get('big'):
            na = g.r.randint(20, 140)
            nb = g.pick([na, na + 1, g.r.randint(1, 30), g.r.randint(20, 140)])
            if g.r.random() < 0.4:
                # products of about a power of two coefficients
                nb = (ref.pow2(na + nb) // g.pick([1, 2]) + g.pick([-1, 0, 1, 1, 2, 2, 3])) - na
            if nb < 1:
                nb = 20
            mon.ev('long_products')
        a, b = vec(g, p, na), vec(g, p, nb)
        x = g.pick([g.fe(p), 0, 1, p - 1, g.r.randrange(p)])
        if F.log_order and g.r.random() < .2:
            x = F.root(1 << g.r.randrange(6))
        fm = R.field
        A, B = el(a), el(b)
        chk(fm.poly_strip(f, A), strip(a), f'strip {a[:6]}', ('strip', str(a)))
        chk(fm.poly_mul(f, A, B), strip(ref.p_mul(F, a, b)), f'product of {a[:6]} and {b[:6]}', ('mul', str(a), str(b)))
        chk(fm.poly_add(f, A, B), strip(ref.p_add(F, a, b)), f'sum of {a[:6]} and {b[:6]}', ('add', str(a), str(b)))
        # cancellation of leading terms
        neg = [-c % p for c in a]
        cut = g.r.randint(0, len(a))
        chk(fm.poly_add(f, A, el(b[:0] + [0] * cut + neg[cut:])), strip(a[:cut]), 'sum with cancellation', ('addc', str(a), cut))
        mon.eq(fm.poly_eval(f, A, f(x)).int(), ref.p_eval(F, a, x), f'{name} evaluation of {a[:6]} at {x}')
        mon.ok(gen.ints(A) == a and gen.ints(B) == b, f'{name}: operands changed')
        mon.ev('evaluations')
        mon.ev('products')
        mon.case(name, 'eval', x, str(a))
        mon.sample('mono-' + name, a=a[:4], b=b[:4], x=x)
    else:
        n = g.size(1, 12, (1, 2, 3)) if not case['p'].get('big') else g.r.randint(13, 40)
        xs = []
        while len(xs) < n:
            x = g.fe(p) if g.r.random() < .5 else g.r.randrange(0, 30)
            if x not in xs:
                xs.append(x)
        a = vec(g, p, n)
        ys = [ref.p_eval(F, a, x) for x in xs]
        if g.r.random() < 0.4:
            ys = vec(g, p, n)
        got = strip(gen.ints(R.field.poly_interp(f, el(xs), el(ys))))
        mon.ok(len(got) <= n and [ref.p_eval(F, got, x) for x in xs] == ys,
               lambda: f'{name} interpolation through {list(zip(xs, ys))[:6]} gave {got[:6]}')
        mon.ev('interpolations', 2)
        mon.case(name, 'interp', str(xs), str(ys))
        mon.sample('interp-' + name, xs=xs[:4], ys=ys[:4])
