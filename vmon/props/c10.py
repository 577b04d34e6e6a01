"""C10: honest ping-pong runs end in agreement with the broadcast execution."""
from vmon import gen, pp, ref
from vmon.gen import G

RULE = ('One case is one report run through the broadcast execution (recorded over encoded messages) and through a ping-pong '
        'session of a leader and a helper. The online monitor checks each state and message against the message sequence '
        'prescribed for the recorded verifier shares and messages (type byte, 4-byte lengths, round, sender), the number of '
        'requests, and the output shares on both sides. Invalid reports must end without a finished side. Non-trivial: '
        'distinct (VDAF, parameters, rounds, message sizes, report).')
NEED = dict(steps_checked=1200, finished_pairs=300, synthetic=150, real=150, invalid_never_finished=100, multi_round=150, very_many_rounds=12)


def cases(c):
    out = []
    g = G(c.rng)
    for r in list(range(1, 25)) + [31, 32, 33, 40]:
        for _ in range(c.n(20, 150)):
            k = g.r.randint(1, 3)
            sizes = [(g.pick([0, 1, 5, 16, 17, 244, 245, 255, 256, 300]), g.pick([0, 1, 6, 244, 245, 246, 255, 256, 300]))
                     for _ in range(k)]
            out.append(('syn', dict(rounds=r, sizes=sizes)))
    for r in (63, 64, 65, 100, 127, 128, 129, 130, 200, 254, 255, 256, 257, 258, 300, g.r.randint(260, 700)):
        for _ in range(c.n(2, 10)):
            out.append(('syn', dict(rounds=r, sizes=[(g.r.randint(0, 9), g.r.randint(0, 9))])))
    for sz in (65524, 65525, 65526, 65536, 70000, 1 << 20):
        out.append(('syn', dict(rounds=g.pick([1, 2, 3]), sizes=[(sz, sz + 1)])))
        out.append(('syn', dict(rounds=g.pick([1, 2, 3]), sizes=[(sz, 3), (3, sz)])))
    for r in range(1, 9):
        for f in range(r):
            for e in ('ValueError', 'KeyError', 'AssertionError', 'Boom'):
                out.append(('syn_invalid', dict(rounds=r, at=f, exc=e)))
    for v in gen.PRIO3:
        for _ in range(c.n(60, 500)):
            out.append(('real', dict(d=g.prio3(v, budget=0.05, shares=2))))
        for _ in range(c.n(6, 40)):
            out.append(('real_invalid', dict(d=g.prio3(v, budget=0.05, shares=2))))
    for bits in list(range(1, 20)) + [32, 33, 64, 128, 256, 257]:
        for _ in range(c.n(12, 80)):
            out.append(('real', dict(d=dict(v='poplar1', bits=bits))))
        out.append(('real_invalid', dict(d=dict(v='poplar1', bits=bits))))
    for v in ('sumvec', 'hist', 'mhot', 'mp'):
        for i in range(c.n(3, 20)):
            out.append(('real', dict(d=g.wide(v, 300 if i else 2000))))
    for bits in [600, 1030, 2060] + [w + g.pick([1, 2, 9]) for w in g.words(60, 5000)]:
        out.append(('real', dict(d=dict(v='poplar1', bits=bits))))
    for w in g.words(4, 3000):
        out.append(('syn', dict(rounds=w + g.pick([1, 2, 3]), sizes=[(g.r.randint(0, 9), g.r.randint(0, 9))])))
    for w in g.words(4, 1 << 22):
        for r in (1, 2, 3):
            out.append(('syn', dict(rounds=r, sizes=[(w + g.pick([-1, 0, 1]), g.r.randint(0, 9)), (g.r.randint(0, 9), w + g.pick([-1, 0, 1]))])))
    return out


EXC = dict(ValueError=ValueError, KeyError=KeyError, AssertionError=AssertionError, Boom=pp.Boom)


def run(case, rng, mon):
    g = G(rng)
    R = gen.repo()
    p, kind = case['p'], case['kind']
    ap = None
    if kind.startswith('syn'):
        S = pp.synthetic()
        ctx, vk, nonce, rand = g.ctx(), g.blob(4), g.blob(4), g.blob(4)
        ap = g.r.randrange(1 << 32)
        fail = ('to_message', p['at'], EXC[p['exc']]) if kind == 'syn_invalid' else None
        v = S(p['rounds'], p.get('sizes', [(5, 6)]), fail)
        m = g.blob(4)
        pub, ins = gen.shard(v, ctx, m, nonce, rand)
        desc = p
    else:
        d = desc = p['d']
        v = pp.wrap(d)
        ctx, vk, nonce = g.ctx(), g.key(), g.nonce()
        m = g.meas(d)
        rand = g.r.randbytes(v.RAND_SIZE)
        if d['v'] == 'poplar1':
            lv = g.pick([0, d['bits'] - 1, g.r.randrange(d['bits'])])
            ap = (lv, tuple(sorted(set(g.prefixes(lv, [m], g.r.randint(1, 4))) | {m[:lv + 1]})))
        if kind == 'real':
            pub, ins = gen.shard(v, ctx, m, nonce, rand)
        elif d['v'] == 'poplar1':
            pub, ins = gen.model(d).shard(ctx, m, nonce, rand, [2 + g.r.randrange(1 << 40)] * d['bits'])
        else:
            M = gen.model(d)
            vec = list(M.C.encode(m))
            i = g.r.randrange(len(vec))
            vec[i] = 2 + g.r.randrange(1 << 40)
            pub, ins = M.shard_vec(ctx, vec, nonce, rand)
    eap = v.encode_agg_param(ap)
    s = pp.Session(v, vk, ctx, eap, nonce, pub, ins)
    if kind in ('syn_invalid', 'real_invalid'):
        tr = s.run(R)
        ks = [pp.kind(R, st) for _, st in tr]
        mon.ok(None not in ks, lambda: f'{desc}: unknown state {tr[-1]}')
        mon.ok(not any(k.startswith('Finished') for k in ks), lambda: f'{desc}: a side finished on an invalid report: {ks}')
        mon.ok(ks[-1] == 'Rejected', lambda: f'{desc}: session ended in {ks}')
        mon.ev('invalid_never_finished')
        mon.case(kind, str(desc), str(p))
        mon.sample(kind, params=p, states=ks)
        return
    log = []
    outs = gen.broadcast(v, vk, ctx, ap, nonce, pub, ins, log=log)
    want = pp.expected_messages(v, log)
    if kind == 'syn':
        v.log.clear()
    tr = s.run(R)
    n = v.ROUNDS
    ks = [(who, pp.kind(R, st)) for who, st in tr]
    exp = [(k % 2, 'Continued' if k < n else 'FinishedWithOutbound') for k in range(n + 1)] + [((n + 1) % 2, 'Finished')]
    mon.ok(ks == exp, lambda: f'{desc}: states {ks}, specified {exp}')
    sent = [st.outbound for _, st in tr[:-1]]
    for k, (a, b) in enumerate(zip(sent, want)):
        mon.ok(a == b, lambda: f'{desc}: message {k} is {a.hex()[:200]}, specified {b.hex()[:200]}')
        mon.ev('steps_checked')
    mon.eq(len([k for k in range(len(sent)) if k % 2 == 0]), (n + 2) // 2, f'{desc}: requests')
    fin = {who: st.out_share for who, st in tr[-2:]}
    for j in (0, 1):
        mon.ok(v.encode_out_share(fin[j]) == v.encode_out_share(outs[j]),
               lambda: f'{desc}: output share of party {j} differs from the direct execution')
    if kind == 'syn':
        # what the VDAF saw: exact call arguments, in order, no extra verification steps
        calls = [x for x in v.log if x[0] == 'verify_init']
        w = [('verify_init', vk, ctx, j, ap, nonce, pub, ins[j]) for j in (0, 1)]
        mon.ok(calls == w, lambda: f'{desc}: verify_init called with {calls}')
        tm = [x for x in v.log if x[0] == 'to_message']
        mon.eq([x[3][0][1] for x in tm], list(range(n)), f'{desc}: rounds of verifier_shares_to_message')
        mon.ok(all(x[1] == ctx and x[2] == ap for x in tm), f'{desc}: verifier_shares_to_message arguments')
        vn = [(x[2], x[3]) for x in v.log if x[0] == 'verify_next']
        mon.ok(sorted(vn) == sorted((j, r) for j in (0, 1) for r in range(n)), lambda: f'{desc}: verify_next steps {vn}')
    mon.ev('synthetic' if kind == 'syn' else 'real')
    mon.ev('finished_pairs')
    if n > 1:
        mon.ev('multi_round')
    if n > 128:
        mon.ev('very_many_rounds')
    mon.case(kind, str(desc), case['seed'])
    mon.sample(kind + str(n), params=p, states=ks, messages=[x.hex()[:80] for x in sent])
