"""C13: field arithmetic and encoding agree with integers modulo the prime."""
from vmon import gen, ref
from vmon.gen import G

RULE = ('One evaluation applies one field operation to boundary-biased or random operands (also as augmented assignment and in '
        'chains) and compares value and canonicality with plain integers modulo the prime; operands must be unchanged. Codec '
        'evaluations round-trip vectors and feed strings of wrong length or with elements not below the prime. Non-trivial: '
        'distinct (field, operation, operands).')
NEED = dict(ops=60000, codec_round_trips=3000, codec_refusals=8000, long_vectors=100, inverses=4000, powers=4000)


def cases(c):
    out = []
    for f in ref.FIELDS:
        for _ in range(c.n(300, 3000)):
            out.append(('ops', dict(f=f)))
        for _ in range(c.n(160, 1600)):
            out.append(('codec', dict(f=f)))
        for _ in range(c.n(40, 300)):
            out.append(('chain', dict(f=f)))
        out.append(('edges', dict(f=f)))
    return out


def edge_values(p):
    e = set()
    for k in range(0, p.bit_length() + 1):
        for o in (-1, 0, 1):
            e.add(((1 << k) + o) % p)
            e.add((p - (1 << k) + o) % p)
    for v in (0, 1, 2, p - 1, p - 2, (p - 1) // 2, (p + 1) // 2, p // 3, 19, 38, 0xffffffff, 1 << 32, 0xffffffff00000000):
        e.add(v % p)
    return sorted(e)


def canon(mon, f, p, x, want, what):
    mon.ok(type(x) is f, lambda: f'{what}: result type {type(x)}')
    v = x.int()
    mon.ok(type(v) is int and 0 <= v < p, lambda: f'{what}: result {v} not canonical')
    mon.ok(v == want, lambda: f'{what} = {v}, expected {want}')
    mon.ev('ops')


def run(case, rng, mon):
    g = G(rng)
    name = case['p']['f']
    F, f = ref.FIELDS[name], gen.fld(name)
    p = F.p
    kind = case['kind']
    mon.eq(f.MODULUS, p, f'{name}.MODULUS')
    mon.eq(f.ENCODED_SIZE, F.size, f'{name}.ENCODED_SIZE')

    def binary(a, b):
        x, y = f(a), f(b)
        canon(mon, f, p, x + y, (a + b) % p, f'{name} {a}+{b}')
        canon(mon, f, p, x - y, (a - b) % p, f'{name} {a}-{b}')
        canon(mon, f, p, x * y, a * b % p, f'{name} {a}*{b}')
        mon.ok((x == y) == (a == b) and (x != y) == (a != b), lambda: f'{name} equality of {a} and {b}')
        z = x
        z += y
        canon(mon, f, p, z, (a + b) % p, f'{name} {a}+={b}')
        z *= y
        canon(mon, f, p, z, (a + b) * b % p, f'{name} ({a}+{b})*={b}')
        z -= x
        canon(mon, f, p, z, ((a + b) * b - a) % p, f'{name} -={a}')
        mon.ok(x.int() == a and y.int() == b, lambda: f'{name}: operands {a}, {b} were changed')
        mon.case(name, 'bin', a, b)

    def unary(a):
        x = f(a)
        canon(mon, f, p, x, a, f'{name}({a})')
        canon(mon, f, p, -x, -a % p, f'{name} -{a}')
        if a:
            i = x.inv()
            canon(mon, f, p, i, pow(a, -1, p), f'{name} 1/{a}')
            mon.eq((i * x).int(), 1, f'{name} {a} * 1/{a}')
            canon(mon, f, p, f(a - p), a, f'{name}({a}-p)')
            mon.ev('inverses')
        mon.eq(x.int(), a, f'{name}: operand')
        mon.case(name, 'un', a)

    def power(a, e):
        canon(mon, f, p, f(a) ** e, pow(a, e, p), f'{name} {a}**{e}')
        mon.ev('powers')
        mon.case(name, 'pow', a, e)

    if kind == 'edges':
        ed = edge_values(p)
        for a in ed:
            unary(a)
            for e in (0, 1, 2, 3, 4, p - 1, p - 2):
                power(a, e)
        s = ed if len(ed) <= 150 else g.r.sample(ed, 150)
        for a in s:
            for b in s:
                binary(a, b)
        for v in (p, p + 1, -p, -p - 1, 2 * p, 1 << (8 * F.size), -(1 << (8 * F.size))):
            try:
                x = f(v)
            except Exception:
                mon.ev('out_of_range_refused')
                continue
            canon(mon, f, p, x, v % p, f'{name}({v})')
        for n in (0, 1, 2, 3, 50, 130, 257, 1025):
            z = f.zeros(n)
            mon.ok(len(z) == n and all(type(e) is f and e.int() == 0 for e in z), f'{name}.zeros({n})')
            r = f.rand_vec(n)
            mon.ok(len(r) == n and all(type(e) is f and 0 <= e.int() < p for e in r), f'{name}.rand_vec({n})')
        z = f.zeros(3)
        z[1] += f(5)
        mon.eq(gen.ints(z), [0, 5, 0], f'{name}.zeros aliasing')
    elif kind == 'ops':
        for _ in range(60):
            binary(g.fe(p), g.fe(p))
            a = g.fe(p)
            binary(a, g.pick([a, p - a if a else 0, (a + 1) % p]))
            unary(g.fe(p))
            power(g.fe(p), g.pick([0, 1, 2, 3, 5, 10, 255, 256, p - 1, p - 2, p, p + 1, (p - 1) // 2, g.r.randrange(p),
                                   g.r.randrange(1 << 300), 1 << g.r.randrange(260), g.r.randrange(1000)]))
        mon.sample('ops-' + name, a=a)
    elif kind == 'chain':
        x, v = f(g.fe(p)), None
        v = x.int()
        for _ in range(300):
            b = g.fe(p)
            op = g.r.randrange(6)
            if op == 0:
                x, v = x + f(b), (v + b) % p
            elif op == 1:
                x, v = x - f(b), (v - b) % p
            elif op == 2:
                x, v = x * f(b), v * b % p
            elif op == 3:
                x, v = -x, -v % p
            elif op == 4:
                x, v = x ** 3, pow(v, 3, p)
            elif v:
                x, v = x.inv(), pow(v, -1, p)
            canon(mon, f, p, x, v, f'{name} chain')
        mon.case(name, 'chain', v)
    else:
        size = F.size
        for _ in range(12):
            big = g.r.random() < 0.04
            vec = [g.fe(p) for _ in range(g.r.randint(100, 2500) if big else g.size(0, 40, (0, 1, 2, 3)))]
            mon.ev('long_vectors', int(big))
            obj = [f(x) for x in vec]
            raw = f.encode_vec(obj)
            want = b''.join(x.to_bytes(size, 'little') for x in vec)
            mon.ok(bytes(raw) == want, lambda: f'{name}: {vec} encodes as {raw.hex()}')
            back = f.decode_vec(raw)
            mon.ok(gen.ints(back) == vec and all(type(e) is f for e in back), lambda: f'{name}: {vec} decodes as {back}')
            mon.eq(gen.ints(obj), vec, f'{name}: encoded vector')
            mon.ev('codec_round_trips')
            mon.case(name, 'codec', raw)
            for k in {1, size - 1, size // 2, g.r.randrange(1, size)}:
                for bad in (raw + g.r.randbytes(k), raw + bytes(k), raw[:len(raw) - k] if len(raw) >= k else bytes(k)):
                    if len(bad) % size:
                        mon.raises(f'{name}: decoding {len(bad)} bytes', f.decode_vec, bad)
                        mon.ev('codec_refusals')
            top = 1 << (8 * size)
            for v in {p, p + 1, top - 1, p + g.r.randrange(top - p), top - 1 - g.r.randrange(min(1000, top - p))}:
                e = v.to_bytes(size, 'little')
                for pos in {0, len(vec) // 2, len(vec), g.r.randint(0, len(vec))}:
                    mon.raises(f'{name}: decoding element {v} at {pos} of {len(vec)}', f.decode_vec,
                               raw[:pos * size] + e + raw[pos * size:])
                    mon.ev('codec_refusals')
            e = g.pick([p - 1, p - 2, 0])
            got = f.decode_vec(raw + e.to_bytes(size, 'little'))
            mon.eq(gen.ints(got), vec + [e], f'{name}: decoding boundary element')
        mon.sample('codec-' + name, vector=vec[:5])
