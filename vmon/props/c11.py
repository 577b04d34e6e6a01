"""C11: ping-pong fails closed on hostile input."""
import copy

from vmon import gen, pp
from vmon.gen import G

LEVEL = 'fault_enumeration'
RULE = ('One case is one session whose every step is attacked: each reachable state receives malformed, mistyped, truncated, '
        'extended, bit-flipped, replayed, reordered, other-session and random messages, initial steps receive corrupt shares and '
        'parameters, and the VDAF underneath fails in each of its methods with various exception types. The monitor demands that '
        'each step returns a state, is rejected whenever the message-level specification says so, never yields an output share '
        'otherwise, and leaves the state object as it was, so that the honest message still succeeds afterwards. Non-trivial: '
        'distinct (session, state, fault).')
NEED = dict(hostile_steps=15000, rejected=12000, honest_after_attack=300, injected_exceptions=300, state_snapshots=12000,
            terminal_states=300, corrupt_init=1500, only_honest_accepted=4000, many_rounds=10000)


def cases(c):
    out = []
    g = G(c.rng)
    for r in range(1, 9):
        for _ in range(c.n(60, 600)):
            k = g.r.randint(1, 3)
            sizes = [(g.pick([0, 1, 5, 16, 245, 300]), g.pick([0, 1, 6, 246, 300])) for _ in range(k)]
            out.append(('syn', dict(rounds=r, sizes=sizes)))
    for r in (9, 10, 11, 12, 16, 17, 20, 33, 45, 65, 130):
        for _ in range(c.n(3, 20)):
            out.append(('syn', dict(rounds=r, sizes=[(g.r.randint(0, 9), g.r.randint(0, 9))])))
    for v in gen.PRIO3:
        for _ in range(c.n(60, 500)):
            out.append(('real', dict(d=g.prio3(v, budget=0.01, shares=2))))
    for bits in (1, 2, 3, 5, 8, 9, 16, 33):
        for _ in range(c.n(40, 300)):
            out.append(('real', dict(d=dict(v='poplar1', bits=bits))))
    for r in (1, 2, 3, 4):
        for where in ('verify_init', 'verify_next', 'to_message', 'decode_agg_param', 'decode_input_share', 'decode_public_share',
                      'encode_verifier_share', 'decode_verifier_share', 'encode_verifier_message', 'decode_verifier_message'):
            out.append(('exc', dict(rounds=r, where=where)))
    for w in g.words(4, 400):
        out.append(('syn', dict(rounds=w + g.pick([1, 2, 3]), sizes=[(g.r.randint(0, 9), g.r.randint(0, 9))])))
    for w in g.words(4, 1 << 20):
        for r in (1, 2, 3):
            out.append(('syn', dict(rounds=r, sizes=[(w + g.pick([-1, 0, 1]), g.r.randint(0, 9)), (g.r.randint(0, 9), w + g.pick([-1, 0, 1]))])))
    return out


EXCS = [ValueError, KeyError, AssertionError, TypeError, IndexError, ZeroDivisionError, AttributeError, OverflowError,
        StopIteration, RuntimeError, NotImplementedError, RecursionError, UnicodeDecodeError, OSError, EOFError,
        ArithmeticError, LookupError, MemoryError, pp.Boom]


def mk(e):
    if e is UnicodeDecodeError:
        return lambda msg: UnicodeDecodeError('utf8', b'x', 0, 1, msg)
    return e


def snap(x):
    if isinstance(x, (list, tuple)):
        return (type(x).__name__,) + tuple(snap(y) for y in x)
    if isinstance(x, dict):
        return ('dict',) + tuple((k, snap(v)) for k, v in x.items())
    if isinstance(x, (bytes, bytearray, int, str, bool, type(None))):
        return (type(x).__name__, bytes(x) if isinstance(x, bytearray) else x)
    if hasattr(x, 'MODULUS'):
        return (type(x).__name__, x.int())
    return (type(x).__name__, snap(vars(x)))


def step(mon, what, fn):
    try:
        return fn()
    except Exception as e:
        mon.ok(False, f'{what}: the step raised {e!r}')


def run(case, rng, mon):
    g = G(rng)
    R = gen.repo()
    p, kind = case['p'], case['kind']
    if kind == 'exc':
        return run_exc(g, R, p, mon)
    ap = None
    if kind == 'syn':
        v = pp.synthetic()(p['rounds'], p['sizes'])
        d = p
        sz = (4, 4, 4)

        def report():
            nonce = g.r.randbytes(4)
            return (nonce,) + gen.shard(v, ctx, g.r.randbytes(4), nonce, g.r.randbytes(4))
        ctx, vk, ap = g.ctx(), g.r.randbytes(4), g.r.randrange(1 << 32)
    else:
        d = p['d']
        v = pp.wrap(d)
        ctx, vk = g.ctx(), g.r.randbytes(32)
        m = g.meas(d)
        if d['v'] == 'poplar1':
            lv = g.pick([0, d['bits'] - 1, g.r.randrange(d['bits'])])
            ap = (lv, tuple(sorted(set(g.prefixes(lv, [m], g.r.randint(1, 3))) | {m[:lv + 1]})))

        def report():
            nonce = g.r.randbytes(16)
            return (nonce,) + gen.shard(v, ctx, m, nonce, g.r.randbytes(v.RAND_SIZE))
    nonce, pub, ins = report()
    eap = v.encode_agg_param(ap)
    s = pp.Session(v, vk, ctx, eap, nonce, pub, ins)
    tr = s.run(R)
    n = v.ROUNDS
    ks = [pp.kind(R, st) for _, st in tr]
    mon.ok(ks[-1] == 'Finished', lambda: f'{d}: honest session ended in {ks}')
    msgs = [st.outbound for _, st in tr[:-1]]
    # a second session of another report supplies foreign messages
    s2 = pp.Session(v, vk, ctx, eap, *report())
    foreign = [st.outbound for _, st in s2.run(R)[:-1]]

    def mutants(honest):
        t, items = pp.parse(honest)
        out = [b'', b'\0', b'\1', b'\2', b'\3', honest[:1], honest[:5], honest[:-1], honest + b'\0', b'\0' + honest,
               honest + honest, honest[1:], bytes([t]) + honest]
        out += [honest + bytes(k) for k in g.r.sample([2, 3, 4, 5, 8, 16, 32, 64, 100, 128, 255, 256, 512, 1000, 1024, 2048, 4096, 65536], 5)]
        out += [bytes([x]) + honest[1:] for x in (0, 1, 2, 3, 4, 127, 128, 255, t ^ 0x80) if x != t]
        for tt in (0, 1, 2):
            for its in ([], items[:1], items[-1:], items, items[::-1], items * 2, [b''], [b'', b''], items + [b''], [b''] + items):
                f = pp.frame(tt, *its)
                if f != honest:
                    out.append(f)
        # length fields
        o = 1
        for it in items:
            for ln in (len(it) + 1, max(0, len(it) - 1), 0, 2**32 - 1, len(it) << 8, 1 << 31):
                if ln != len(it):
                    out.append(honest[:o] + ln.to_bytes(4, 'big') + honest[o + 4:])
            out.append(honest[:o] + len(it).to_bytes(4, 'little') + honest[o + 4:])
            o += 4 + len(it)
        # item contents
        for i, it in enumerate(items):
            for alt in (it[:-1], it + b'\0', it + it, b'', bytes(len(it)), b'\xff' * len(it), g.r.randbytes(len(it)),
                        g.r.randbytes(g.r.randint(0, 80)), it[1:] + it[:1]):
                f = pp.frame(t, *(items[:i] + [alt] + items[i + 1:]))
                if f != honest:
                    out.append(f)
            if it:
                for _ in range(3):
                    out.append(pp.frame(t, *(items[:i] + [gen.flip(it, g.r.randrange(8 * len(it)))] + items[i + 1:])))
        out += [x for x in msgs + foreign if x != honest]
        # hybrids of this session and the foreign one
        for x in foreign + msgs:
            ft, fi = pp.parse(x)
            for i in range(min(len(items), len(fi))):
                out.append(pp.frame(t, *(items[:i] + [fi[i]] + items[i + 1:])))
        for _ in range(4):
            out.append(g.r.randbytes(g.r.randint(0, 60)))
            out.append(bytes([g.r.randrange(3)]) + g.r.randbytes(g.r.randint(0, 60)))
            if honest:
                out.append(gen.flip(honest, g.r.randrange(8 * len(honest))))
                out.append(honest[:g.r.randrange(len(honest))])
        return [x for x in dict.fromkeys(out) if x != honest]

    def spec(party, st, inbound, rnd):
        """What the message-level specification prescribes: 'Rejected' or the expected outcome, computed with
        the VDAF's own operations. rnd: the round of the state (None for the helper's first step)."""
        q = pp.parse(inbound)
        try:
            if q is None:
                return None
            t, items = q
            if rnd is None:
                if t != 0:
                    return None
                vst, vs = v.verify_init(vk, ctx, 1, ap, nonce, v.decode_public_share(pub), v.decode_input_share(1, ins[1]))
                shares = [v.decode_verifier_share(vst, items[0]), vs]
                rnd = -1
            else:
                if t == 0:
                    return None
                out = v.verify_next(ctx, st.verify_state, v.decode_verifier_message(st.verify_state, items[0]))
                if t == 2:
                    return ('Finished', v.encode_out_share(out), None) if rnd + 1 == n else None
                if rnd + 1 >= n:
                    return None
                vst, vs = out
                shares = [v.decode_verifier_share(vst, items[1]), vs]
                if party == 0:
                    shares.reverse()
            rnd += 1
            msg = v.verifier_shares_to_message(ctx, ap, shares)
            em = v.encode_verifier_message(msg)
            out = v.verify_next(ctx, vst, msg)
            if rnd + 1 == n:
                return ('FinishedWithOutbound', v.encode_out_share(out), pp.frame(2, em))
            return ('Continued', None, pp.frame(1, em, v.encode_verifier_share(out[1])))
        except Exception:
            return None

    def judge(what, st, want, unforgeable=False):
        k = pp.kind(R, st)
        if unforgeable:
            # nothing but the honest message verifies
            mon.ok(k == 'Rejected', lambda: f'{d}: {what} must be rejected, gave {k}')
            mon.ev('only_honest_accepted')
        mon.ok(k is not None, lambda: f'{d}: {what} returned {st!r}, not a state')
        if want is None:
            mon.ok(k == 'Rejected', lambda: f'{d}: {what} must be rejected, gave {k}')
            mon.ev('rejected')
        else:
            got = (k, v.encode_out_share(st.out_share) if hasattr(st, 'out_share') else None, getattr(st, 'outbound', None))
            mon.ok(got == want, lambda: f'{d}: {what} gave {got}, specified {want}')
            mon.ev('accepted_as_specified')
        mon.ev('hostile_steps')

    few = (lambda x, k: g.r.sample(x, min(k, len(x))))
    # helper's first step
    for h in mutants(msgs[0]):
        st = step(mon, f'{d}: helper_init on {h.hex()[:100]}', lambda: s.helper_init(h))
        judge(f'helper_init on {h.hex()[:100]}', st, spec(1, None, h, None), kind == 'real' and n == 1)
        mon.case(str(d), 'helper_init', h[:64], len(h))
    # corrupt shares and parameters at the initial steps
    for name, good, dec in (('ap', eap, v.decode_agg_param), ('pub', pub, v.decode_public_share),
                            ('inp', None, None)):
        for party in (0, 1):
            base = ins[party] if name == 'inp' else good
            de = (lambda b: v.decode_input_share(party, b)) if name == 'inp' else dec
            alts = [base[:-1], base + b'\0', b'', base + base, base[1:], ins[1 - party] if name == 'inp' else b'x',
                    b'\xff' * len(base), g.r.randbytes(g.r.randint(0, 60)), b'\xff\xff\xff\xff\xff\xff\xff']
            for a in alts:
                if a == base:
                    continue
                what = f'{("leader", "helper")[party]}_init with {name}={a.hex()[:80]}'
                st = step(mon, f'{d}: {what}', lambda: s.helper_init(msgs[0], **{name: a}) if party else s.leader_init(**{name: a}))
                k = pp.kind(R, st)
                mon.ok(k is not None, lambda: f'{d}: {what} returned {st!r}')
                try:
                    de(a)
                    bad = False
                except Exception:
                    bad = True
                if bad:
                    mon.ok(k == 'Rejected', lambda: f'{d}: {what} must be rejected, gave {k}')
                mon.ev('corrupt_init')
    # every continued state
    for i, (who, st) in enumerate(tr):
        k = pp.kind(R, st)
        if k != 'Continued':
            # a peer that keeps sending after the end
            for h in msgs + [b'']:
                for party in (0, 1):
                    before = snap(st)
                    r = step(mon, f'{d}: step on {k} state', lambda: s.cont(party, st, h))
                    mon.ok(pp.kind(R, r) == 'Rejected', lambda: f'{d}: message after {k} gave {pp.kind(R, r)}')
                    mon.ok(snap(st) == before, f'{d}: step altered a {k} state')
                    mon.ev('terminal_states')
            continue
        rnd = i      # state after message i is in round i
        honest = msgs[i + 1]
        before = snap(st)
        for h in few(mutants(honest), 70 if n < 9 else 25):
            r = step(mon, f'{d}: continued on {h.hex()[:100]}', lambda: s.cont(who, st, h))
            judge(f'party {who} in round {rnd} on {h.hex()[:100]}', r, spec(who, st, h, rnd), kind == 'real' and rnd == n - 1)
            mon.ok(snap(st) == before, lambda: f'{d}: step altered the state it was given (party {who}, round {rnd})')
            mon.ev('state_snapshots')
            mon.ev('many_rounds', int(n > 8))
            mon.case(str(d), who, rnd, h[:64], len(h))
        # the honest message still works and gives the recorded successor, twice
        for _ in range(2):
            r = step(mon, f'{d}: honest step', lambda: s.cont(who, st, honest))
            nxt = tr[i + 2][1]
            mon.ok(pp.kind(R, r) == pp.kind(R, nxt) and snap(r) == snap(nxt),
                   lambda: f'{d}: honest message after hostile ones gave {pp.kind(R, r)}')
            mon.ev('honest_after_attack')
        for (_, o) in tr:
            pass
    # the recorded states themselves are unchanged at the end: rerun compares
    tr2 = s.run(R)
    mon.ok([snap(x) for _, x in tr2] == [snap(x) for _, x in tr], f'{d}: session differs after the attacks')
    if kind == 'real' or p['rounds'] < 4:
        mon.sample(kind + str(n), params=p, states=ks, hostile_example=mutants(msgs[-1])[7].hex()[:80])


def run_exc(g, R, p, mon):
    """The VDAF underneath fails with every kind of exception in every method."""
    n, where = p['rounds'], p['where']
    ctx, vk, nonce, ap = b'ctx', b'\0' * 4, b'\1' * 4, 7
    for exc in EXCS:
        for rnd in range(n):
            for agg in (0, 1):
                v = pp.synthetic()(n, [(5, 6)])
                pub, ins = gen.shard(v, ctx, b'abcd', nonce, b'rand')
                v.fail = (where, rnd if where not in ('decode_agg_param', 'decode_input_share', 'decode_public_share') else None,
                          mk(exc), agg)
                s = pp.Session(v, vk, ctx, v.encode_agg_param(ap), nonce, pub, ins)
                tr = step(mon, f'{where} raising {exc.__name__} in round {rnd} of {n}', lambda: s.run(R))
                ks = [pp.kind(R, st) for _, st in tr]
                mon.ok(None not in ks, lambda: f'{where} raising {exc.__name__}: states {ks}')
                hit = ks[-1] == 'Rejected'
                # one party at least must have noticed (the failing operation is on the path), and the party
                # whose operation failed has no output share
                reached = True
                if where == 'verify_init' and rnd > 0:
                    reached = False
                if where == 'decode_verifier_share' and agg != (rnd + 1) % 2:
                    reached = False
                if where == 'encode_verifier_share' and agg != rnd % 2:
                    reached = False
                if where == 'decode_verifier_message' and agg != rnd % 2:
                    reached = False
                mon.ok(hit or not reached, lambda: f'{where} raising {exc.__name__} (round {rnd} of {n}, party {agg}): states {ks}')
                mon.ev('injected_exceptions')
                mon.case(where, exc.__name__, rnd, agg, n)
    mon.sample('exc-' + where, rounds=n, states_of_last_session=ks)
