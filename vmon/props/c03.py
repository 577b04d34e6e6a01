"""C03: altered reports and verification messages are rejected or harmless."""
from vmon import gen, ref
from vmon.gen import G

LEVEL = 'fault_enumeration'
RULE = ('One case takes an honest Prio3 or Poplar1 execution over encoded messages and repeats it many times with exactly one '
        'message altered in transit: public share, one input share, one verifier share of one round, or the verifier message '
        'as received by one aggregator. Alterations: bit flips, element-aligned changes (+1, -1, zero, modulus-1, swap), '
        'truncation, extension, splices from a second report, exchange between aggregators and rounds. The oracle accepts '
        'only a failure or output shares adding up to the honest output. Non-trivial: distinct (parameters, message, '
        'alteration, position) where the delivered bytes differ.')
NEED = dict(alterations_judged=5000, rejected=2000, poplar1=300, target_pub=200, target_in=500, target_share=300, target_msg=100, poplar1_long=45)
ASSUMPTIONS = ['forgeries by random alteration (probability about 2^-55 each) do not occur']


def cases(c):
    out = []
    g = G(c.rng)
    b = 0.03 if c.tier == 'quick' else 0.1
    for v in gen.PRIO3:
        for _ in range(c.n(40, 300)):
            out.append(('prio3', dict(d=g.prio3(v, budget=b, max_shares=8), n=30)))
    for v in ('sumvec', 'hist', 'mhot', 'mp'):
        for lo, hi in ((66, 127), (128, 254)):
            for _ in range(c.n(1, 6)):
                out.append(('prio3', dict(d=g.long(v, lo, hi), n=8)))
    for s in (16, 64, 255):
        out.append(('prio3', dict(d=dict(v='hist', shares=s, length=3, chunk=2), n=6)))
        out.append(('prio3', dict(d=dict(v='count', shares=s), n=6)))
    for bits in list(range(1, 13)) + [16, 31, 32, 33, 64]:
        for _ in range(c.n(5, 40)):
            out.append(('poplar1', dict(d=dict(v='poplar1', bits=bits), n=40 if bits < 20 else 15)))
    for bits in [130, 257, 300, g.r.randint(500, 600), g.r.randint(1025, 1100)] + [w + g.pick([1, 2, 20]) for w in g.words(60, 5000)]:
        for lv in (bits - 1, bits - 2, bits - 3):
            for _ in range(c.n(1, 6)):
                out.append(('poplar1', dict(d=dict(v='poplar1', bits=bits), n=6, lv=lv)))
    for v in ('sumvec', 'hist', 'mhot', 'mp'):
        for i in range(c.n(3, 20)):
            out.append(('prio3', dict(d=g.wide(v, 500 if i else 1500), n=6)))
    for k in (130, 257, 300):
        for _ in range(c.n(1, 5)):
            out.append(('poplar1', dict(d=dict(v='poplar1', bits=11), n=10, k=k)))
    # exhaustive bit flips of small reports
    for d in (dict(v='count', shares=2), dict(v='sum', shares=2, max=3), dict(v='hist', shares=2, length=2, chunk=1),
              dict(v='poplar1', bits=2), dict(v='poplar1', bits=3)):
        for t in range(8):
            out.append(('flips', dict(d=d, part=t, of=8)))
    return out


def alter(g, data, other, F):
    """Returns (label, altered)."""
    n = len(data)
    b = bytearray(data)
    k = g.pick(['flip', 'flip', 'elem', 'elem', 'elem', 'trunc', 'extend', 'splice', 'splice', 'byte', 'zero', 'swap', 'whole'])
    if n == 0:
        return 'extend', g.pick([b'\0', b'\1', g.r.randbytes(F.size), g.r.randbytes(32)])
    if k == 'flip':
        i = g.pick([0, 8 * n - 1, g.r.randrange(8 * n), g.r.randrange(8 * n)])
        return k, gen.flip(data, i)
    if k == 'elem' and n >= F.size:
        o = g.r.randrange(n // F.size) * F.size + g.pick([0, 0, n % F.size])
        x = int.from_bytes(b[o:o + F.size], 'little')
        x = g.pick([x + 1, x - 1, 0, 1, F.p - 1, g.r.randrange(F.p), x + F.p, -x % F.p, 2 * x % F.p]) % (1 << 8 * F.size)
        b[o:o + F.size] = x.to_bytes(F.size, 'little')
        return k, bytes(b)
    if k == 'trunc':
        m = g.pick([1, F.size, 16, 32, n, g.r.randint(1, n)])
        return k, data[:max(0, n - m)]
    if k == 'extend':
        return k, data + g.pick([b'\0', b'\1', bytes(F.size), g.r.randbytes(16), g.r.randbytes(32), data])
    if k == 'splice' and other:
        u = g.pick([1, 8, 16, 32, F.size])
        lo = g.r.randrange(0, n, u)
        hi = min(n, lo + u * g.r.randint(1, max(1, n // u)))
        b[lo:hi] = other[lo:hi]
        return k, bytes(b)
    if k == 'byte':
        b[g.r.randrange(n)] = g.r.randrange(256)
        return k, bytes(b)
    if k == 'zero':
        lo = g.r.randrange(0, n, 8)
        b[lo:lo + g.pick([8, 16, 32, n])] = b''
        return k, bytes(b).ljust(n, b'\0')
    if k == 'swap' and n >= 2 * F.size:
        s = g.pick([F.size, F.size, 32 if n >= 64 else F.size])
        m = n // s
        i, j = g.r.sample(range(m), 2)
        if g.r.random() < 0.3:
            b[j * s:j * s + s] = b[i * s:i * s + s]
        else:
            b[i * s:i * s + s], b[j * s:j * s + s] = b[j * s:j * s + s], b[i * s:i * s + s]
        return k, bytes(b)
    if k == 'whole' and other:
        return k, other
    return 'random', g.r.randbytes(n)


def run(case, rng, mon):
    g = G(rng)
    d = case['p']['d']
    v = gen.build(d)
    ctx, vk, nonce = g.ctx(), g.key(), g.nonce()
    pop = d['v'] == 'poplar1'
    m = g.meas(d)
    ap = None
    F = gen.circuit(d).F if not pop else None
    if pop and 'k' in case['p']:
        level, m = 9, (True,) * 6 + m[6:]
        ap = (level, tuple(sorted(set(g.prefixes(level, [m], case['p']['k'])) | {m[:level + 1]})))
        F = ref.F64
    elif pop:
        level = case['p'].get('lv', g.pick([0, d['bits'] - 1, g.r.randrange(d['bits'])]))
        if d['bits'] <= 4 and g.r.random() < 0.5:
            pf = gen.all_prefixes(level + 1)
        else:
            pf = g.prefixes(level, [m], g.r.randint(1, 5))
            if g.r.random() < 0.7:
                pf = tuple(sorted(set(pf) | {m[:level + 1]}))
        ap = (level, pf)
        F = ref.F64 if level < d['bits'] - 1 else ref.F255
    # degenerate randomness (equal IDPF keys) voids the guarantee, so draw uniformly
    rand, rand2 = g.r.randbytes(v.RAND_SIZE), g.r.randbytes(v.RAND_SIZE)
    pub, ins = gen.shard(v, ctx, m, nonce, rand)
    opub, oins = gen.shard(v, ctx, g.meas(d), g.pick([nonce, g.nonce()]), rand2)
    log, olog = [], []
    base = gen.broadcast(v, vk, ctx, ap, nonce, pub, ins, log=log)
    want = gen.total(base, F.p)
    try:
        gen.broadcast(v, vk, ctx, ap, nonce, opub, oins, log=olog)
    except Exception:
        pass
    mon.ev('honest_executions')
    n, R = len(ins), v.ROUNDS

    def judge(target, what, new, old, j=None, rnd=None):
        if new == old:
            return
        P, I, tam = pub, ins, None
        if target == 'pub':
            P = new
        elif target == 'pub1':      # only one aggregator receives the altered public share
            P = [new if k == j else pub for k in range(n)]
        elif target == 'in':
            I = [new if k == j else x for k, x in enumerate(ins)]
        else:
            def tam(stage, r, k, data):
                return new if (stage, r, k) == (target, rnd, j) else data
        mon.ev('alterations_judged')
        mon.ev('target_' + target)
        if pop:
            mon.ev('poplar1')
            mon.ev('poplar1_long', int(d['bits'] > 128))
        try:
            outs = gen.broadcast(v, vk, ctx, ap, nonce, P, I, tamper=tam)
            got = gen.total(outs, F.p)
        except Exception:
            mon.ev('rejected')
        else:
            mon.ok(got == want and all(len(o) == len(want) for o in outs),
                   lambda: f'{d} m={m} agg_param={ap}: {target} (aggregator {j}, round {rnd}) altered by {what}: '
                           f'accepted with output {got} instead of {want}')
            mon.ev('harmless')
        mon.case(str(d), target, j, rnd, what, new)
        mon.sample(('poplar1/' if pop else 'prio3/') + target, d=d, alteration=what, aggregator=j, round=rnd, altered=new)

    shares = {e[1]: e[2] for e in log if e[0] == 'shares'}
    msgs = {e[1]: e[2] for e in log if e[0] == 'msg'}
    oshares = {e[1]: e[2] for e in olog if e[0] == 'shares'}

    if case['kind'] == 'flips':
        part, of = case['p']['part'], case['p']['of']
        todo = [('pub', pub, None, None)] + [('in', x, j, None) for j, x in enumerate(ins)]
        todo += [('share', x, j, r) for r in shares for j, x in enumerate(shares[r])]
        todo += [('msg', msgs[r], j, r) for r in msgs for j in range(n)]
        for t, data, j, r in todo:
            for bit in range(part, 8 * len(data), of):
                judge(t, f'flip {bit}', gen.flip(data, bit), data, j, r)
        return

    for _ in range(case['p']['n']):
        t = g.pick(['pub', 'pub1', 'in', 'in', 'in', 'share', 'share', 'msg'])
        j, r = g.r.randrange(n), g.r.randrange(R)
        if g.r.random() < 0.3:
            j = g.pick([0, n - 1])
        if t in ('pub', 'pub1'):
            lab, new = alter(g, pub, opub, F)
            judge(t, lab, new, pub, j)
        elif t == 'in':
            if g.r.random() < 0.15:
                k = g.r.randrange(n)
                judge(t, f'share of aggregator {k}', ins[k], ins[j], j)
                continue
            lab, new = alter(g, ins[j], oins[j], F)
            judge(t, lab, new, ins[j], j)
        elif t == 'share':
            x = g.r.random()
            if x < 0.1:
                k = g.r.randrange(n)
                judge(t, f'share of aggregator {k}', shares[r][k], shares[r][j], j, r)
            elif x < 0.15 and R > 1:
                judge(t, 'share of another round', shares[1 - r][j], shares[r][j], j, r)
            else:
                o = oshares.get(r, [None] * n)[j]
                lab, new = alter(g, shares[r][j], o, F)
                judge(t, lab, new, shares[r][j], j, r)
        else:
            o = g.pick([msgs[k] for k in msgs] + [b'', shares[r][j]])
            lab, new = alter(g, msgs[r], o, F)
            judge(t, lab, new, msgs[r], j, r)
