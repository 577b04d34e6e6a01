"""C19: operations are pure: no hidden state, no argument mutation."""
import hashlib
import random

from vmon import circ, gen, pp, ref, sched
from vmon.gen import G
from vmon.harness import Violation

LEVEL = 'fault_enumeration'
RULE = ('One case draws several sessions (sharding to unsharding, ping-pong exchanges, proofs, IDPF, XOF, field and polynomial '
        'operations) that share objects or differ from each other in a single input (context, nonce, key, measurement, '
        'randomness, parameter). Each session alone in a fresh process gives the expected result of each call. Then all '
        'sessions run in one process: interleaved call by call, interleaved by threads switched at chosen lines or bytecodes, or with an '
        'exception injected at a chosen line of a call before it is repeated. Every call must give the expected '
        'result, leave its arguments as they were and leave earlier results as they were. Non-trivial: distinct (sessions, schedule).')
NEED = dict(calls=20000, arguments_checked=20000, baseline_sessions=800, interleaved_histories=120, thread_schedules=100,
            thread_switches=8000, crashes_injected=1200, results_rechecked=15000)


def cases(c):
    out = []
    g = G(c.rng)
    for mode in ('history', 'threads', 'crash'):
        for i in range(c.n(500, 4000)):
            out.append((mode, dict(x=i % 10)))
    return out


# ------------------------------------------------------------------ canonical values

def freeze(x, depth=0):
    if x is None or isinstance(x, (bool, int, str, bytes, float)):
        return x
    if isinstance(x, bytearray):
        return ('bytearray', bytes(x))
    if isinstance(x, (list, tuple)):
        return (type(x).__name__,) + tuple(freeze(y, depth + 1) for y in x)
    if isinstance(x, dict):
        return ('dict',) + tuple((freeze(k), freeze(v, depth + 1)) for k, v in x.items())
    if isinstance(x, (set, frozenset)):
        return ('set',) + tuple(sorted(map(repr, x)))
    if isinstance(x, type):
        return ('class', x.__name__)
    if hasattr(x, 'int') and callable(x.int):
        return (type(x).__name__, x.int())
    if type(x).__module__ == 'vdaf_poc.vdaf_ping_pong' and depth < 8:
        return (type(x).__name__,) + tuple((a, freeze(getattr(x, a), depth + 1))
                                           for a in ('verify_state', 'verify_round', 'out_share', 'outbound') if hasattr(x, a))
    return ('object', type(x).__name__)


def digest(x):
    return hashlib.sha256(repr(freeze(x)).encode()).hexdigest()[:24]


# ------------------------------------------------------------------ sessions
# A session is a generator yielding (name, callable, args) and receiving the
# result (None if the call raised). Names starting with '!' are calls meant to fail.

def flip(r, b, n):
    """Alters one byte in each of n equal parts."""
    b = bytearray(b)
    for i in range(n if b else 0):
        k = len(b) // n * i + r.randrange(max(1, len(b) // n))
        b[k] ^= 1 << r.randrange(6)
    return bytes(b)


def s_vdaf(obj, q):
    V = obj
    ctx, nonce, vk, m, rand, ap = q['ctx'], q['nonce'], q['vk'], q['meas'], q['rand'], q['ap']
    r = yield 'shard', V.shard, (ctx, m, nonce, rand)
    pub, ins = r
    yield '!shard', V.shard, (ctx, m, nonce[:-1], rand)
    yield '!shard', V.shard, (ctx, q['bad'], nonce, rand)
    epub = yield 'encode_public_share', V.encode_public_share, (pub,)
    pub2 = yield 'decode_public_share', V.decode_public_share, (epub,)
    yield '!decode_public_share', V.decode_public_share, (epub + b'\0',)
    r = random.Random(q['seed'])
    # a report altered in transit, seen as one object by all aggregators
    pub3 = yield '!decode_public_share', V.decode_public_share, (flip(r, epub, len(ins)),)
    bad = []
    states, shares = [], []
    for j, x in enumerate(ins):
        e = yield 'encode_input_share', V.encode_input_share, (x,)
        x2 = yield 'decode_input_share', V.decode_input_share, (j, e)
        yield '!decode_input_share', V.decode_input_share, (j, e[:-1])
        st, sh = yield 'verify_init', V.verify_init, (vk, ctx, j, ap, nonce, pub2, x2)
        if pub3 is not None:
            bad.append((yield '!verify_init', V.verify_init, (vk, ctx, j, ap, nonce, pub3, x2)))
        x3 = yield '!decode_input_share', V.decode_input_share, (j, flip(r, e, 1))
        if x3 is not None:
            yield '!verify_init', V.verify_init, (vk, ctx, j, ap, nonce, pub2, x3)
        es = yield 'encode_verifier_share', V.encode_verifier_share, (sh,)
        sh2 = yield 'decode_verifier_share', V.decode_verifier_share, (st, es)
        states.append(st)
        shares.append(sh2)
    if len(bad) == len(ins) and None not in bad:
        msg = yield '!verifier_shares_to_message', V.verifier_shares_to_message, (ctx, ap, [x for _, x in bad])
        for st, _ in bad:
            yield '!verify_next', V.verify_next, (ctx, st, msg)
    outs = None
    for rnd in range(V.ROUNDS):
        msg = yield 'verifier_shares_to_message', V.verifier_shares_to_message, (ctx, ap, shares)
        yield '!verifier_shares_to_message', V.verifier_shares_to_message, (ctx, ap, [shares[0][:-1]] + shares[1:])
        em = yield 'encode_verifier_message', V.encode_verifier_message, (msg,)
        msg2 = yield 'decode_verifier_message', V.decode_verifier_message, (states[0], em)
        msg3 = yield '!decode_verifier_message', V.decode_verifier_message, (states[0], flip(r, em, 1) if em else bytes(32))
        for st in states:
            yield '!verify_next', V.verify_next, (ctx, st, msg3)
        res = []
        for st in states:
            res.append((yield 'verify_next', V.verify_next, (ctx, st, msg2)))
        if rnd == V.ROUNDS - 1:
            outs = res
        else:
            states = [a for a, _ in res]
            shares = [b for _, b in res]
    aggs = []
    for o in outs:
        a0 = yield 'agg_init', V.agg_init, (ap,)
        a1 = yield 'agg_update', V.agg_update, (ap, a0, o)
        yield '!agg_update', V.agg_update, (ap, a1, o + o[:1] if len(o) else o)
        a2 = yield 'agg_update', V.agg_update, (ap, a1, o)
        a3 = yield 'merge', V.merge, (ap, [a1, a2])
        ea = yield 'encode_agg_share', V.encode_agg_share, (a3,)
        a4 = yield 'decode_agg_share', V.decode_agg_share, (ap, ea)
        aggs.append(a4)
    yield 'unshard', V.unshard, (ap, aggs, 3)
    yield 'is_valid', V.is_valid, (ap, [])
    yield 'is_valid', V.is_valid, (ap, [ap])


def s_pp(obj, q):
    V = obj
    ctx, nonce, vk, m, rand = q['ctx'], q['nonce'], q['vk'], q['meas'], q['rand']
    eap = yield 'encode_agg_param', V.encode_agg_param, (q['ap'],)
    pub, ins = yield 'shard', V.shard, (ctx, m, nonce, rand)
    pub = yield 'encode_public_share', V.encode_public_share, (pub,)
    ins = [V.encode_input_share(x) for x in ins]
    L = yield 'leader_init', V.ping_pong_leader_init, (vk, ctx, eap, nonce, pub, ins[0])
    Hs = yield 'helper_init', V.ping_pong_helper_init, (vk, ctx, eap, nonce, pub, ins[1], L.outbound)
    yield 'helper_init_bad', V.ping_pong_helper_init, (vk, ctx, eap, nonce, pub, ins[1], L.outbound[:-1])
    turn = True
    for _ in range(2 * V.ROUNDS + 2):
        me, other = (L, Hs) if turn else (Hs, L)
        if not hasattr(me, 'verify_state') or not getattr(other, 'outbound', None):
            break
        f = V.ping_pong_leader_continued if turn else V.ping_pong_helper_continued
        yield 'continued_bad', f, (ctx, eap, me, other.outbound + b'\0')
        for t in (0, 1, 2, 3):
            yield 'continued_bad', f, (ctx, eap, me, bytes([t]) + other.outbound[1:] + bytes(t == other.outbound[0]))
        it = (pp.parse(other.outbound) or (0, []))[1]
        for bad in [pp.frame(1, it[0], it[-1]), pp.frame(2, it[0]), pp.frame(0, it[0])] if it else []:
            if bad != other.outbound:
                yield 'continued_bad', f, (ctx, eap, me, bad)
        new = yield 'continued', f, (ctx, eap, me, other.outbound)
        if turn:
            L = new
        else:
            Hs = new
        turn = not turn


def s_flp(obj, q):
    flp, F = obj
    f = flp.field
    r = random.Random(q['seed'])

    def rv(n):
        return [f(r.randrange(F.p)) for _ in range(n)]
    meas = yield 'encode', flp.encode, (q['meas'],)
    if 'badmeas' in q:
        yield '!encode', flp.encode, (q['badmeas'],)
    prand, jr, qr = rv(flp.PROVE_RAND_LEN), rv(flp.JOINT_RAND_LEN), rv(flp.QUERY_RAND_LEN)
    proof = yield 'prove', flp.prove, (meas, prand, jr)
    yield '!prove', flp.prove, (meas, prand + prand, jr)
    v = yield 'query', flp.query, (meas, proof, qr, jr, 1)
    one = list(qr)
    one[-1] = f(1)
    yield '!query', flp.query, (meas, proof, one, jr, 1)
    yield 'decide', flp.decide, (v,)
    bad = [proof[0] + f(1)] + proof[1:]
    vb = yield 'query', flp.query, (meas, bad, qr, jr, 1)
    yield 'decide', flp.decide, (vb,)
    v3 = yield 'query', flp.query, (meas, proof, qr, jr, 3)
    yield 'decide', flp.decide, (v3,)
    o = yield 'truncate', flp.truncate, (meas,)
    yield 'decode', flp.decode, (o, 1)
    yield 'eval', flp.valid.eval, (meas, jr, 1)


def s_idpf(obj, q):
    I = obj
    f, l = I.field_inner, I.field_leaf
    r = random.Random(q['seed'])
    vl = I.VALUE_LEN
    inner = [[f(r.randrange(f.MODULUS)) for _ in range(vl)] for _ in range(I.BITS - 1)]
    leaf = [l(r.randrange(l.MODULUS)) for _ in range(vl)]
    pub, keys = yield 'gen', I.gen, (q['meas'], inner, leaf, q['ctx'], q['nonce'], q['rand'][:32])
    e = yield 'encode_public_share', I.encode_public_share, (pub,)
    pub2 = yield 'decode_public_share', I.decode_public_share, (e,)
    for level in q['levels']:
        pre = tuple(sorted({tuple(q['meas'][:level + 1])} | {tuple(bool(r.getrandbits(1)) for _ in range(level + 1)) for _ in range(3)}))
        for j in (0, 1):
            yield 'eval', I.eval, (j, pub2, keys[j], level, pre, q['ctx'], q['nonce'])
        yield '!eval', I.eval, (0, pub2, keys[0], level, pre + pre, q['ctx'], q['nonce'])
        yield '!eval', I.eval, (0, pub2, keys[0], I.BITS, pre, q['ctx'], q['nonce'])


def s_xof(obj, q):
    X, f = obj
    seed = (q['rand'] * 3)[:X.SEED_SIZE]
    x = X(seed, q['ctx'], q['nonce'])
    y = X(seed, q['ctx'], q['nonce'] + b'1')
    for n in (1, 7, 16, 40, 3, 168, 33):
        yield 'next', x.next, (n,)
        yield 'next', y.next, (n + 1,)
        yield 'next_vec', x.next_vec, (f, 3)
    yield 'derive_seed', X.derive_seed, (seed, q['ctx'], q['nonce'])
    yield 'expand_into_vec', X.expand_into_vec, (f, seed, q['ctx'], q['nonce'], 5)
    yield '!derive_seed', X.derive_seed, (seed, b'\0' * 65536, q['nonce'])


def s_field(obj, q):
    f, F, mod = obj
    r = random.Random(q['seed'])
    p = F.p

    def rv(n):
        return [f(r.choice([0, 1, p - 1, r.randrange(p), r.randrange(p)])) for _ in range(n)]
    a, b = rv(8), rv(8)
    yield 'ntt', f.ntt, (a, 8)
    c = yield 'ntt', f.ntt, (a, 16)
    yield 'ntt', f.ntt, (a[:3], 8)
    yield 'ntt_shift', f.ntt, (a, 8, True)
    yield 'inv_ntt', f.inv_ntt, (c, 16)
    yield '!ntt', f.ntt, (a, 7)
    yield 'nth_root', f.nth_root, (8,)
    yield 'nth_root_powers', f.nth_root_powers, (8,)
    yield 'poly_mul', mod.poly_mul, (f, a[:5], b)
    yield 'poly_add', mod.poly_add, (f, a[:5], b)
    yield 'poly_strip', mod.poly_strip, (f, a[:2] + f.zeros(3))
    yield 'poly_eval', mod.poly_eval, (f, a, b[0])
    xs = [f(i) for i in r.sample(range(1, 100), 5)]
    yield 'poly_interp', mod.poly_interp, (f, xs, b[:5])
    L = mod.Lagrange(f)
    yield 'lag_mul', L.poly_mul, (a, b)
    x = f(r.randrange(100, p))
    yield 'lag_eval', L.poly_eval, (a, x)
    yield 'lag_eval_batched', L.poly_eval_batched, ([a, b, a], x)
    yield 'lag_double', L.double_evaluations, (a,)
    e = yield 'encode_vec', f.encode_vec, (a,)
    yield 'decode_vec', f.decode_vec, (e,)
    yield '!decode_vec', f.decode_vec, (e + b'\xff',)
    yield 'zeros', f.zeros, (4,)
    yield 'inv', a[2].inv, ()
    yield 'add', lambda x, y: x + y, (a[0], b[0])
    yield 'sub', lambda x, y: x - y, (a[1], b[1])
    yield 'mul', lambda x, y: x * y, (a[2], b[2])
    yield 'pow', lambda x, y: x ** y, (a[3], 77)
    yield 'neg', lambda x: -x, (a[4],)


SESS = dict(vdaf=s_vdaf, pp=s_pp, flp=s_flp, idpf=s_idpf, xof=s_xof, field=s_field)


def make(d):
    """The object a descriptor names."""
    R = gen.repo()
    k = d['obj']
    if k == 'vdaf':
        return gen.build(d['d'])
    if k == 'pp':
        return pp.wrap(d['d'])
    if k == 'flp':
        if 'plan' in d:
            plan = circ.Plan(*d['plan'], max_degree=3, max_calls=4)
            return R.bb.FlpBBCGGI19(plan.build()), plan.F
        return R.bb.FlpBBCGGI19(gen.build_valid(d['d'])), gen.circuit(d['d']).F
    if k == 'idpf':
        return R.idpf.IdpfBBCGGI21(d['vl'], d['bits'])
    if k == 'xof':
        return getattr(R.xof, d['x']), gen.fld(d['f'])
    return gen.fld(d['f']), ref.FIELDS[d['f']], R.field


def obj_desc(g, kind):
    if kind in ('vdaf', 'pp', 'flp'):
        v = g.pick(['count', 'sum', 'sumvec', 'hist', 'mhot', 'mp'] + (['poplar1'] * 4 if kind != 'flp' else []))
        if v == 'poplar1':
            return dict(obj=kind, d=dict(v='poplar1', bits=g.r.randint(1, 6)))
        if kind == 'flp' and g.r.random() < 0.3:
            return dict(obj='flp', plan=(g.pick(['Field64', 'Field128']), g.r.getrandbits(40)))
        d = dict(v=v, shares=2 if kind == 'pp' else g.pick([2, 2, 3]))
        if v == 'sum':
            d['max'] = g.r.randint(1, 15)
        elif v == 'hist':
            d.update(length=g.r.randint(1, 5), chunk=g.r.randint(1, 3))
        elif v == 'mhot':
            d.update(length=g.r.randint(2, 4), chunk=g.r.randint(1, 3))
            d['max'] = g.r.randint(1, d['length'] - 1)
        elif v in ('sumvec', 'mp'):
            d.update(length=g.r.randint(1, 2), max=g.r.randint(1, 5), chunk=g.r.randint(1, 3))
            if v == 'mp':
                d.update(field=g.pick(['Field64', 'Field128']), proofs=g.r.randint(1, 2))
        return dict(obj=kind, d=d)
    if kind == 'idpf':
        return dict(obj='idpf', vl=g.r.randint(1, 3), bits=g.r.randint(2, 5))
    if kind == 'xof':
        return dict(obj='xof', x=g.pick(['XofTurboShake128', 'XofFixedKeyAes128']), f=g.pick(['Field64', 'Field128', 'Field255']))
    return dict(obj='field', f=g.pick(['Field64', 'Field96', 'Field128']))


def rand_size(d):
    if d['obj'] in ('vdaf', 'pp'):
        if d['d']['v'] == 'poplar1':
            return 32 * 3 + 32
        C = gen.circuit(d['d'])
        n = d['d']['shares']
        return 32 * (2 * n if C.jr_len else n)
    return 64


def params(g, d):
    q = dict(ctx=g.pick([b'', b'ctx', b'ctx A', g.r.randbytes(20)]), nonce=g.r.randbytes(16), vk=g.r.randbytes(32), seed=g.r.getrandbits(40),
             rand=g.r.randbytes(rand_size(d)), ap=None)
    vary(g, d, q, 'meas')
    vary(g, d, q, 'ap')
    return q


def vary(g, d, q, what):
    if what == 'meas':
        if d['obj'] == 'idpf':
            q['meas'] = g.bits(d['bits'])
        elif d['obj'] == 'flp' and 'plan' in d:
            q['meas'] = circ.Plan(*d['plan'], max_degree=3, max_calls=4).m0
        elif 'd' in d:
            q['meas'] = g.meas(d['d'])
            v = d['d']['v']
            q['bad'] = {'count': 2, 'sum': -1, 'hist': 99}.get(v, [])
            if d['obj'] == 'flp':
                q['badmeas'] = q['bad']
        else:
            q['meas'] = 0
    elif what == 'ap':
        if d['obj'] in ('vdaf', 'pp') and d['d']['v'] == 'poplar1':
            lv = g.r.randrange(d['d']['bits'])
            q['ap'] = (lv, g.prefixes(lv, [tuple(q['meas'])], g.r.randint(1, 3)))
        elif d['obj'] == 'idpf':
            q['levels'] = sorted(g.r.sample(range(d['bits']), g.r.randint(1, 2)))
    elif what == 'seed':
        q['seed'] = g.r.getrandbits(40)
    elif what == 'ctx':
        q['ctx'] = g.pick([q['ctx'] + b'x', b'', b'other', q['ctx'][:-1]])
    else:
        q[what] = g.r.randbytes(len(q[what]))


# ------------------------------------------------------------------ driver

class Driver:
    def __init__(self, expected=None, label=''):
        self.expected = expected      # list of digests per call, or None when recording
        self.got = []
        self.kept = []
        self.calls = self.args = 0
        self.label = label

    def compare(self, name, dg, what):
        if self.expected is None:
            return
        i = len(self.got)
        want = self.expected[i] if i < len(self.expected) else None
        if want is None or want[0] != name or want[1] != dg:
            raise Violation(f'{self.label}: call {i} {name} {what}: result differs from the same call alone in a fresh process '
                            f'(got {dg}, expected {want})')

    def execute(self, name, fn, args):
        before = [digest(a) for a in args]
        try:
            r = fn(*args)
            dg = digest(r)
        except Exception:
            r, dg = None, 'raised'
        after = [digest(a) for a in args]
        self.calls += 1
        self.args += len(args)
        if before != after:
            k = [i for i in range(len(args)) if before[i] != after[i]]
            raise Violation(f'{self.label}: {name} modified its argument(s) {k}')
        return r, dg

    def step(self, name, fn, args, how='', again=False):
        r, dg = self.execute(name, fn, args)
        self.compare(name, dg, how)
        if again and name not in ('next', 'next_vec'):
            _, dg2 = self.execute(name, fn, args)
            self.compare(name, dg2, 'repeated')
        self.got.append((name, dg))
        if dg != 'raised':
            self.kept.append((name, r, dg))
        return r

    def finish(self):
        for name, r, dg in self.kept:
            if digest(r) != dg:
                raise Violation(f'{self.label}: the result of an earlier {name} was modified later')
        if self.expected is not None and len(self.got) != len(self.expected):
            raise Violation(f'{self.label}: {len(self.got)} calls instead of {len(self.expected)}')


def advance(gene, drv, first, val, how='', again=False, execute=None):
    """One call of a session; returns (finished, result)."""
    try:
        name, fn, args = next(gene) if first else gene.send(val)
    except StopIteration:
        return True, None
    except (TypeError, AttributeError, ValueError, IndexError):
        # a call that should have succeeded did not; the record ends here
        return True, None
    if execute:
        execute(name, fn, args)
    return False, drv.step(name, fn, args, how, again)


def alone(d, q, objs=None):
    def go():
        o = make(d)
        s, drv = SESS[d['obj']](o, q), Driver()
        done, val = advance(s, drv, True, None)
        while not done:
            done, val = advance(s, drv, False, val)
        drv.finish()
        return drv.got
    return sched.isolated(go)


def run(case, rng, mon):
    g = G(rng)
    gen.repo()          # imported here, called in children only
    mode = case['kind']
    kinds = ['vdaf'] * 4 + ['pp', 'flp', 'flp', 'idpf', 'xof', 'field']
    # sessions: a base, variations of it in one input, and others
    kind = g.pick(kinds)
    d = obj_desc(g, kind)
    base = params(g, d)
    sess = [(d, base)]
    fields = dict(vdaf=['ctx', 'nonce', 'vk', 'meas', 'rand', 'ap'], pp=['ctx', 'nonce', 'vk', 'meas', 'rand', 'ap'], flp=['meas', 'seed'],
                  idpf=['ctx', 'nonce', 'meas', 'rand', 'ap', 'seed'], xof=['ctx', 'nonce', 'rand'], field=['seed'])[kind]
    nvar = dict(history=4, threads=2, crash=2)[mode]
    for _ in range(nvar):
        q = dict(base)
        w = g.pick(fields)
        if w == 'meas' and d['obj'] in ('vdaf', 'pp') and d['d']['v'] == 'poplar1':
            vary(g, d, q, 'meas')
        else:
            vary(g, d, q, w)
        sess.append((d, q))
    if mode != 'threads' or g.r.random() < 0.5:
        # another object of the same kind with other parameters, and something unrelated
        d2 = obj_desc(g, kind)
        sess.append((d2, params(g, d2)))
        if mode == 'history':
            d3 = obj_desc(g, g.pick(kinds))
            sess.append((d3, params(g, d3)))
    name = f'{mode} over {[x["obj"] for x, _ in sess]} {d}'
    expected = [alone(a, b) for a, b in sess]
    mon.ev('baseline_sessions', len(sess))
    mon.ev('baseline_calls_that_raise_unexpectedly', sum(n[0] != '!' and dg == 'raised' for e in expected for n, dg in e))

    def shared():
        # one object per descriptor, shared by its sessions
        objs = {}
        gens, drv = [], []
        for i, (a, b) in enumerate(sess):
            k = repr(a)
            if k not in objs:
                objs[k] = make(a)
            gens.append(SESS[a['obj']](objs[k], b))
            drv.append(Driver(expected[i], f'{mode}, session {i} {a}'))
        c = dict(histories=0, switches=0, crashes=0, points=[])
        if mode == 'threads':
            prefix = sched.root()

            def body(i):
                def go():
                    done, val = advance(gens[i], drv[i], True, None, 'with other threads running')
                    while not done:
                        done, val = advance(gens[i], drv[i], False, val, 'with other threads running')
                return go
            il = sched.Interleave(g.r, prefix, opcodes=g.r.random() < 0.4, p=g.pick([0.3, 0.05, 0.01, 0.003]))
            for st, e in il.run([body(i) for i in range(len(sess))]):
                if st == 'raised':
                    raise e
            c['switches'] = il.switches
            c['points'] = sorted(il.points)
        else:
            state = {i: (True, None) for i in range(len(sess))}
            prefix = sched.root()

            def crasher(name, fn, args):
                if g.r.random() > (0.25 if d['obj'] == 'vdaf' else 0.5):
                    return

                def quiet():
                    try:
                        return fn(*args)
                    except Exception:
                        return None
                if name in ('next', 'next_vec'):
                    return
                before = [digest(x) for x in args]
                _, n = sched.count_lines(quiet, prefix)
                if not n:
                    return
                for _ in range(2):
                    at = sched.crash_at(lambda: fn(*args), prefix, g.pick([1, n, g.r.randint(1, n), g.r.randint(1, n), g.r.randint(1, n)]),
                                        g.pick([sched.Crash, sched.HardCrash, KeyError, MemoryError]))
                    if at:
                        c['crashes'] += 1
                        c['points'].append(at)
                    if [digest(x) for x in args] != before:
                        raise Violation(f'{name} interrupted at {at} left its arguments modified')
            order = []
            while state:
                i = g.pick(sorted(state))
                for _ in range(g.pick([1, 1, 1, 2, 5])):
                    first, val = state[i]
                    done, val = advance(gens[i], drv[i], first, val, 'in a shared history', again=mode == 'history' and g.r.random() < 0.15,
                                        execute=crasher if mode == 'crash' else None)
                    if done:
                        del state[i]
                        break
                    state[i] = (False, val)
                order.append(i)
            c['histories'] = 1
            c['order'] = order
        for x in drv:
            x.finish()
        c['calls'] = sum(x.calls for x in drv)
        c['args'] = sum(x.args for x in drv)
        c['kept'] = sum(len(x.kept) for x in drv)
        c['points'] = sorted(set(c['points']))[:3000]
        return c
    c = sched.isolated(shared)
    mon.ev('calls', c['calls'])
    mon.ev('arguments_checked', c['args'])
    mon.ev('results_rechecked', c['kept'])
    if mode == 'threads':
        mon.ev('thread_schedules')
        mon.ev('thread_switches', c['switches'])
    elif mode == 'history':
        mon.ev('interleaved_histories')
    mon.ev('crashes_injected', c['crashes'])
    for pt in c['points']:
        mon.case(mode, d['obj'], pt)
    mon.case(name, str(c.get('order', c['switches'])))
    mon.sample(mode, sessions=name, calls=c['calls'], switches=c['switches'], crashes=c['crashes'])
