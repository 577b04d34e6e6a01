"""C09: VDAF message codecs are lossless and canonical."""
from vmon import gen, ref
from vmon.gen import G

RULE = ('One case records every message of one execution. Each message is encoded, decoded and compared value by value, then the '
        'decoder is fed mutants of the encoding (truncations, extensions, bit flips, elements replaced by the modulus or more, '
        'set padding bits, moved bytes) and random strings: it must fail or return a value that encodes to the same string, and '
        'must fail where the size or a field element is wrong. Non-trivial: distinct (parameters, message kind, mutation).')
NEED = dict(round_trips=2000, mutants=15000, must_fail=6000, refused=6000, accepted_canonical=500, over_modulus=500,
            padding_bits=150, agg_param_round_trips=250, many_candidates=2)


def norm(x):
    if isinstance(x, (list, tuple)):
        return tuple(norm(y) for y in x)
    if hasattr(x, 'int') and hasattr(x, 'MODULUS'):
        return (type(x).__name__, x.int())
    if isinstance(x, (bytes, bytearray)):
        return bytes(x)
    return x


def cases(c):
    out = []
    g = G(c.rng)
    for v in gen.PRIO3:
        for _ in range(c.n(40, 400)):
            out.append(('prio3', dict(d=g.prio3(v, budget=0.05, max_shares=255 if g.r.random() < .1 else 6))))
    for bits in list(range(1, 41)) + [63, 64, 65, 127, 128, 129, 255, 256, 257]:
        for _ in range(c.n(2, 12)):
            out.append(('poplar1', dict(d=dict(v='poplar1', bits=bits))))
    for bits in (511, 513, 1023, 1024, 1025, 1030, 2047, 2048, 2049, g.r.randint(1030, 3000)):
        out.append(('poplar1', dict(d=dict(v='poplar1', bits=bits))))
    for bits in (1, 2, 7, 8, 9, 16, 100, 256, 1000, 65535, 65536):
        for _ in range(c.n(4, 30)):
            out.append(('aggparam', dict(bits=bits)))
    for _ in range(c.n(60, 400)):
        out.append(('idpf', dict(bits=g.size(1, 20), vl=g.size(1, 9))))
    for v in ('sumvec', 'hist', 'mhot', 'mp'):
        for i in range(c.n(3, 20)):
            out.append(('prio3', dict(d=g.wide(v, 300 if i else 1500))))
    for w in g.words(40, 5000):
        out.append(('poplar1', dict(d=dict(v='poplar1', bits=w + g.pick([1, 2, 9])))))
        out.append(('aggparam', dict(bits=w + g.pick([1, 2, 9]))))
        out.append(('idpf', dict(bits=g.r.randint(1, 5), vl=w + 1)))
    for k in [1030, 2060, 5000, 66000] + [w + g.r.randint(1, 9) for w in g.words(200, 70000)]:
        out.append(('many', dict(k=k)))
    for vl in (20, 33, 65, 130, 260):
        out.append(('idpf', dict(bits=g.r.randint(1, 5), vl=vl)))
    return out


class Codec:
    """enc/dec of one message kind; elems = [(offset, size, modulus)]; exact = total size if fixed."""

    def __init__(self, name, enc, dec, elems=(), exact=None, pad=(), counted=False):
        self.counted = counted      # the size follows from a count inside the string
        self.name, self.enc, self.dec, self.elems, self.exact, self.pad = name, enc, dec, list(elems), exact, list(pad)


def vec_elems(off, n, F):
    return [(off + i * F.size, F.size, F.p) for i in range(n)]


def exercise(mon, g, d, cd, value, n_mut=10):
    raw = cd.enc(value)
    mon.ok(isinstance(raw, (bytes, bytearray)), f'{d} {cd.name}: not bytes')
    raw = bytes(raw)
    back = cd.dec(raw)
    mon.ok(norm(back) == norm(value), lambda: f'{d} {cd.name}: decoding {raw.hex()[:200]} gives another value')
    mon.eq(bytes(cd.enc(back)), raw, f'{d} {cd.name}: re-encoding')
    mon.ev('round_trips')
    if cd.exact is not None:
        mon.eq(len(raw), cd.exact, f'{d} {cd.name}: encoded size')
    feed(mon, g, d, cd, raw, n_mut)
    return raw


def check(mon, d, cd, m, fail, how):
    mon.ev('mutants')
    try:
        x = cd.dec(m)
    except Exception:
        mon.ev('refused')
        if fail:
            mon.ev('must_fail')
        mon.case(str(d), cd.name, how)
        return
    mon.ok(not fail, lambda: f'{d} {cd.name}: decoder accepts {how} {m.hex()[:300]}')
    try:
        again = bytes(cd.enc(x))
    except Exception as e:
        mon.ok(False, f'{d} {cd.name}: decoder accepts {how} {m.hex()[:300]} but the value does not encode ({e!r})')
    mon.ok(again == m, lambda: f'{d} {cd.name}: decoder accepts {how} {m.hex()[:300]}, encodes back as {again.hex()[:300]}')
    mon.ev('accepted_canonical')
    mon.case(str(d), cd.name, how)


def feed(mon, g, d, cd, raw, n_mut):
    n = len(raw)
    fixed = cd.exact is not None
    const = fixed and not cd.counted
    # wrong sizes
    cuts = {0, n - 1, n - 2, n // 2, g.r.randrange(n + 1), n - 8, n - 16, n - 32}
    if cd.elems:
        cuts |= {cd.elems[-1][0], cd.elems[0][0], g.pick(cd.elems)[0]}
    for k in sorted(cuts):
        if 0 <= k < n:
            check(mon, d, cd, raw[:k], fixed, f'truncated to {k} of {n}')
            if k:
                check(mon, d, cd, raw[n - k:], const, f'without the first {n - k}')
    exts = [b'\0', b'\xff', bytes(8), bytes(16), bytes(32), raw[:1], raw[-16:], raw, g.r.randbytes(g.r.randint(1, 40))]
    for e in exts:
        if e:
            check(mon, d, cd, raw + e, fixed, f'extended by {len(e)}')
            check(mon, d, cd, e + raw, const, f'prefixed by {len(e)}')
    # elements not below the modulus
    picks = cd.elems if len(cd.elems) <= 6 else [cd.elems[0], cd.elems[-1]] + g.r.sample(cd.elems, 4)
    for off, size, p in picks:
        top = 1 << (8 * size)
        vals = [v for v in (p, p + 1, top - 1, p + g.r.randrange(top - p), p + int.from_bytes(raw[off:off + size], 'little'))
                if p <= v < top]
        for v in dict.fromkeys(vals):
            m = raw[:off] + v.to_bytes(size, 'little') + raw[off + size:]
            check(mon, d, cd, m, True, f'element at {off} not below the modulus ({v})')
            mon.ev('over_modulus')
        for v in (p - 1, 0):
            check(mon, d, cd, raw[:off] + v.to_bytes(size, 'little') + raw[off + size:], False, f'element at {off} = {v}')
    # padding bits that must be zero
    for byte, bit in cd.pad if len(cd.pad) <= 16 else g.r.sample(cd.pad, 16):
        check(mon, d, cd, gen.flip(raw, 8 * byte + bit), True, f'padding bit {byte}.{bit} set')
        mon.ev('padding_bits')
    # arbitrary changes
    for _ in range(n_mut):
        if n:
            check(mon, d, cd, gen.flip(raw, g.r.randrange(8 * n)), False, 'one bit flipped')
            b = bytearray(raw)
            o = g.r.randrange(n)
            b[o] = g.pick([0, 0xff, g.r.randrange(256)])
            check(mon, d, cd, bytes(b), False, 'one byte replaced')
        check(mon, d, cd, g.r.randbytes(n), False, 'random string of the right size')
        k = g.size(0, 100)
        check(mon, d, cd, g.blob(k), const and k != n, f'random string of {k} bytes')


def many(g, k, mon):
    """Aggregation parameters with many candidates."""
    bits = g.pick([17, 18, 24, 25])
    v = gen.build(dict(v='poplar1', bits=bits))
    level = bits - g.pick([1, 1, 2])
    step = (1 << (level + 1)) // k
    o = g.r.randrange(step) if step else 0
    ap = (level, tuple(tuple(bool((o + i * step) >> (level - b) & 1) for b in range(level + 1)) for i in range(k)))
    raw = v.encode_agg_param(ap)
    bpp = (level + 8) // 8
    mon.eq(len(raw), 6 + bpp * k, f'size of {k} encoded candidates')
    mon.ok(norm(v.decode_agg_param(raw)) == norm(ap), f'{k} candidates at level {level} do not survive encoding and decoding')
    mon.ev('agg_param_round_trips')
    mon.ev('many_candidates')
    for bad, what in ((raw[:-1], 'last byte missing'), (raw + b'\0', 'a byte added'), (raw[:-bpp], 'last candidate missing'), (raw + raw[-bpp:], 'a candidate added'),
                      (raw[:2] + (k - 1).to_bytes(4, 'big') + raw[6:], 'count too small'), (raw[:2] + (k + 1).to_bytes(4, 'big') + raw[6:], 'count too large')):
        mon.raises(f'decoding {k} candidates at level {level}, {what}', v.decode_agg_param, bad)
        mon.ev('must_fail')
        mon.ev('refused')
    if (level + 1) % 8:
        b = bytearray(raw)
        b[6 + bpp * (k - g.pick([0, 0, g.r.randrange(k)])) - 1] ^= 1
        mon.raises(f'decoding {k} candidates at level {level} with padding set', v.decode_agg_param, bytes(b))
        mon.ev('padding_bits')
    mon.case('many', level, k)


def run(case, rng, mon):
    g = G(rng)
    R = gen.repo()
    kind = case['kind']
    if kind == 'many':
        return many(g, case['p']['k'], mon)
    if kind == 'aggparam':
        bits = case['p']['bits']
        v = gen.build(dict(v='poplar1', bits=bits))
        cd = Codec('agg_param', v.encode_agg_param, v.decode_agg_param, counted=True)
        for _ in range(6):
            level = min(bits - 1, g.size(0, min(bits - 1, 2**16 - 1), (0, 6, 7, 8, 14, 15, 16, 254, 255, 256, 257, 65534, 65535)))
            k = g.size(0, 300 if level < 300 else 5, (0, 1, 2, 255, 256, 257, 300))
            pf = []
            while len(pf) < k:
                pf.append(g.bits(level + 1))
            if g.r.random() < 0.7:
                pf = sorted(set(pf))
            ap = (level, tuple(pf))
            bpp = (level + 8) // 8
            npad = 8 * bpp - (level + 1)
            cd.exact = 6 + bpp * len(pf)
            cd.pad = [(6 + bpp * (i + 1) - 1, b) for i in range(min(len(pf), 20)) for b in range(npad)]
            exercise(mon, g, dict(bits=bits), cd, ap, 3)
            mon.ev('agg_param_round_trips')
            raw = v.encode_agg_param(ap)
            # inconsistent counts
            if pf:
                for delta in (1, -1, 256, 1 << 24):
                    c = len(pf) + delta
                    if 0 <= c < 2**32:
                        check(mon, bits, cd, raw[:2] + c.to_bytes(4, 'big') + raw[6:], True, f'prefix count {delta:+}')
        for bad in (-1, 2**16, 2**16 + 1, 2**32):
            mon.raises(f'encode_agg_param level {bad}', v.encode_agg_param, (bad, ()))
        mon.sample(kind, bits=bits, agg_param=ap if level < 20 and k < 5 else level)
        return
    if kind == 'idpf':
        bits, vl = case['p']['bits'], case['p']['vl']
        f = R.idpf.IdpfBBCGGI21(vl, bits)
        F64, F255 = R.field.Field64, R.field.Field255
        pub, keys = f.gen(g.bits(bits), [[F64(g.fe(F64.MODULUS)) for _ in range(vl)] for _ in range(bits - 1)],
                          [F255(g.fe(F255.MODULUS)) for _ in range(vl)], g.ctx(), g.nonce(), g.r.randbytes(32))
        exercise(mon, g, case['p'], idpf_codec(f, bits, vl), pub, 4)
        mon.sample(kind, **case['p'])
        return
    d = case['p']['d']
    v = gen.build(d)
    ctx, vk, nonce = g.ctx(), g.key(), g.nonce()
    m = g.meas(d)
    pub, ins = v.shard(ctx, m, nonce, g.r.randbytes(v.RAND_SIZE))
    n = v.SHARES
    if kind == 'prio3':
        C = gen.circuit(d)
        F = C.F
        k = d.get('proofs', 1)
        M = gen.model(d)
        jr = C.jr_len > 0
        S = 32
        plen, vlen = C.proof_len(), C.verifier_len()
        ap = None
        exercise(mon, g, d, Codec('public share', v.encode_public_share, v.decode_public_share, exact=S * n if jr else 0), pub, 4)
        for j in sorted({0, 1, n - 1}):
            ne = C.meas_len + plen * k if j == 0 else 0
            cd = Codec(f'input share {min(j, 1)}', v.encode_input_share, lambda b, j=j: v.decode_input_share(j, b),
                       vec_elems(0, ne, F), ne * F.size + (S if j else 0) + (S if jr else 0))
            exercise(mon, g, d, cd, ins[j], 4)
        # helpers' shares given to the leader's decoder and vice versa are just other strings
        vcd = lambda st: Codec('verifier share', v.encode_verifier_share, lambda b: v.decode_verifier_share(st, b),  # noqa
                               vec_elems(0, vlen * k, F), vlen * k * F.size + (S if jr else 0))
    else:
        bits = d['bits']
        exercise(mon, g, d, idpf_codec(v, bits, 2), pub, 4)
        for j in (0, 1):
            ni = 2 * (bits - 1)
            cd = Codec('input share', v.encode_input_share, lambda b, j=j: v.decode_input_share(j, b),
                       vec_elems(48, ni, ref.F64) + vec_elems(48 + 8 * ni, 2, ref.F255), 48 + 8 * ni + 64)
            exercise(mon, g, d, cd, ins[j], 4)
        level = g.pick([0, bits - 1, g.r.randrange(bits)])
        ap = (level, g.prefixes(level, [m], g.pick([1, 2, 3, 7])))
        F = ref.F255 if level == bits - 1 else ref.F64
        exercise(mon, g, d, Codec('agg_param', v.encode_agg_param, v.decode_agg_param), ap, 4)
        mon.ev('agg_param_round_trips')
        vcd = None
    states, vs = [], []
    for j in range(n):
        st, s = v.verify_init(vk, ctx, j, ap, nonce, pub, ins[j])
        states.append(st)
        vs.append(s)
    outs = None
    for rnd in range(v.ROUNDS):
        for j in sorted({0, 1, n - 1}):
            cd = vcd(states[j]) if vcd else Codec(
                f'verifier share {rnd}', v.encode_verifier_share, lambda b, j=j: v.decode_verifier_share(states[j], b),
                vec_elems(0, 3 if rnd == 0 else 1, F))
            raw = exercise(mon, g, d, cd, vs[j], 4)
            if not vcd:
                for bad in (raw[:-F.size], raw + bytes(F.size), b'', raw + raw, raw[:-1], raw + b'\0', raw[:F.size] * 2):
                    if bad == raw:
                        continue
                    mon.ev('must_fail')

                    def combine():
                        x = [v.decode_verifier_share(states[0], bad if i == j else v.encode_verifier_share(vs[i]))
                             for i in range(n)]
                        return v.verifier_shares_to_message(ctx, ap, x)
                    mon.raises(f'{d} verifier share of round {rnd} with {len(bad)} of {len(raw)} bytes', combine)
        msg = v.verifier_shares_to_message(ctx, ap, vs)
        cd = Codec('verifier message', v.encode_verifier_message, lambda b: v.decode_verifier_message(states[0], b),
                   vec_elems(0, 3, F) if kind == 'poplar1' and rnd == 0 else ())
        exercise(mon, g, d, cd, msg, 4)
        res = [v.verify_next(ctx, states[j], msg) for j in range(n)]
        if rnd == v.ROUNDS - 1:
            outs = res
        else:
            states, vs = [r[0] for r in res], [r[1] for r in res]
    for j in sorted({0, 1, n - 1}):
        ne = len(outs[j])
        exercise(mon, g, d, Codec('output share', v.encode_out_share, lambda b: v.decode_out_share(ap, b),
                                  vec_elems(0, ne, F)), outs[j], 3)
        a = v.agg_init(ap)
        ecd = Codec('aggregate share', v.encode_agg_share, lambda b: v.decode_agg_share(ap, b), vec_elems(0, ne, F))
        exercise(mon, g, d, ecd, a, 1)
        a = v.agg_update(ap, a, outs[j])
        exercise(mon, g, d, ecd, a, 3)
    mon.sample(d['v'], d=d, nonce=nonce, ctx=ctx)


def idpf_codec(f, bits, vl):
    nb = (2 * bits + 7) // 8
    pad = [(nb - 1, b) for b in range(2 * bits - 8 * (nb - 1), 8)]
    off = nb + 16 * bits
    el = vec_elems(off, vl * (bits - 1), ref.F64) + vec_elems(off + 8 * vl * (bits - 1), vl, ref.F255)
    return Codec('public share', f.encode_public_share, f.decode_public_share, el, off + 8 * vl * (bits - 1) + 32 * vl, pad)
