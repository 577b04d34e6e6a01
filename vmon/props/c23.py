"""C23: generated test vectors are faithful records of real executions."""
import collections
import contextlib
import glob
import io
import json
import os
import shutil
import subprocess
import sys
import tempfile

from vmon import gen, rec, ref
from vmon.gen import G

RULE = ('regenerate: the generator runs in a scratch directory and its files must equal the published ones byte for byte. '
        'published: an interpreter of the operation list replays each published file against the code. '
        'generated: a vector is generated for a VDAF, parameters, context and batch; the file must equal the returned dictionary, '
        'record the true inputs and parameters, list every operation exactly once in executable order, and the interpreter, given '
        'only the file and the VDAF, must reproduce every recorded value; each value is also cross-checked with the model (Prio3, '
        'Poplar1) or the recorded tokens (multi-round synthetic VDAF). Non-trivial: distinct (VDAF, parameters, batch).')
NEED = dict(files_compared=30, published_replayed=25, vectors_generated=300, operations_replayed=6000, values_compared=8000,
            multi_round_vectors=60, negative_operations=5)


def cases(c):
    out = [('regenerate', {}), ('published', {})]
    g = G(c.rng)
    for v in gen.PRIO3:
        for i in range(c.n(60, 500)):
            out.append(('generated', dict(d=g.prio3(v, budget=0.03, max_shares=12), k=g.pick([0, 1, 1, 2, 3, 5]))))
    for i in range(c.n(120, 1000)):
        out.append(('generated', dict(d=dict(v='poplar1', bits=g.size(1, 20, (1, 2, 7, 8, 9, 16)), shares=2), k=g.pick([0, 1, 2, 3]))))
    for i in range(c.n(150, 1200)):
        out.append(('generated', dict(d=dict(v='traced', shares=g.size(1, 12, (2, 3)), rounds=g.pick([1, 2, 3, 4, 5, 9])), k=g.pick([0, 1, 2, 4, 7]))))
    for i in range(c.n(12, 100)):
        out.append(('generated', dict(d=dict(v='traced', shares=g.pick([2, 3, g.r.randint(12, 60)]), rounds=g.pick([1, 2, 3, g.r.randint(9, 30)])), k=g.pick([11, 20, 40]))))
        out.append(('generated', dict(d=g.prio3(g.pick(gen.PRIO3), budget=0.006, max_shares=30), k=g.pick([11, 20]))))
    for v in ('sumvec', 'hist', 'mhot', 'mp'):
        for i in range(c.n(2, 20)):
            out.append(('generated', dict(d=g.wide(v, 300), k=g.pick([1, 2]))))
    for bits in (40, 130, 257):
        out.append(('generated', dict(d=dict(v='poplar1', bits=bits, shares=2), k=g.pick([1, 2]))))
    for k in [100, 130, 257, 300] + [w + g.r.randint(1, 9) for w in g.words(8, 1500)]:
        out.append(('generated', dict(d=dict(v='traced', shares=g.pick([2, 3]), rounds=g.pick([1, 2, 3])), k=k)))
        out.append(('generated', dict(d=dict(v='traced', shares=g.pick([2, 3]), rounds=min(k, 700)), k=g.pick([1, 2]))))
    for s in [100, 129, 200, 255] + [w for w in g.words(8, 256)]:
        out.append(('generated', dict(d=dict(v='traced', shares=s, rounds=g.pick([1, 2, 3])), k=g.pick([1, 2]))))
    return out


def run(case, rng, mon):
    globals()['run_' + case['kind']](G(rng), case['p'], mon)


def poc():
    import vdaf_poc
    return os.path.dirname(os.path.abspath(list(vdaf_poc.__path__)[0]))


def run_regenerate(g, P, mon):
    base = poc()
    d = tempfile.mkdtemp(prefix='vmon-tv-')
    try:
        r = subprocess.run([sys.executable, '-B', os.path.join(base, 'gen_test_vec.py')], cwd=d, capture_output=True, text=True, timeout=600,
                           env=dict(os.environ, TEST_VECTOR_PATH=d + '/out', PYTHONPATH=base, PYTHONDONTWRITEBYTECODE='1'))
        mon.ok(r.returncode == 0, lambda: f'the generator fails: {r.stderr[-600:]}')
        pub = os.path.join(os.path.dirname(base), 'test_vec')

        def tree(root):
            return sorted(os.path.relpath(f, root) for f in glob.glob(root + '/**/*.json', recursive=True))
        mon.eq(tree(d + '/out'), tree(pub), 'set of generated files')
        for f in tree(pub):
            a, b = open(os.path.join(d, 'out', f), 'rb').read(), open(os.path.join(pub, f), 'rb').read()
            mon.ok(a == b, lambda: f'generated {f} differs from the published file')
            mon.ev('files_compared')
            mon.case('file', f)
    finally:
        shutil.rmtree(d)


def descriptor(name, t):
    base = name.split('_')[0]
    if base == 'Poplar1':
        return dict(v='poplar1', bits=t['bits'], shares=2)
    d = dict(shares=t['shares'], v=dict(Prio3Count='count', Prio3Sum='sum', Prio3SumVec='sumvec', Prio3Histogram='hist',
                                        Prio3MultihotCountVec='mhot').get(base))
    if d['v'] is None:
        return None
    for a, b in (('max_measurement', 'max'), ('max_weight', 'max'), ('length', 'length'), ('chunk_length', 'chunk')):
        if a in t:
            d[b] = t[a]
    return d


def run_published(g, P, mon):
    for f in sorted(glob.glob(os.path.join(os.path.dirname(poc()), 'test_vec', 'vdaf', '*.json'))):
        t = json.load(open(f))
        d = descriptor(os.path.basename(f), t)
        if d is None:
            continue
        replay(os.path.basename(f), gen.build(d), d, t, mon)
        mon.ev('published_replayed')
        mon.case('published', f)


# ------------------------------------------------------------------ interpreter of operation lists

def measurement(d, m):
    return tuple(bool(x) for x in m) if d['v'] == 'poplar1' else m


def replay(name, V, d, t, mon):
    unhex = bytes.fromhex
    ctx, vk, ap = unhex(t['ctx']), unhex(t['verify_key']), V.decode_agg_param(unhex(t['agg_param']))
    states = {}
    dead = set()
    for k, op in enumerate(t['operations']):
        what = f'{name}: operation {k} {op}'
        o = op['operation']
        r = t['reports'][op['report_index']] if 'report_index' in op else None
        i, j, rnd = op.get('report_index'), op.get('aggregator_id'), op.get('round')

        def shard():
            pub, ins = V.shard(ctx, measurement(d, r['measurement']), unhex(r['nonce']), unhex(r['rand']))
            mon.eq(V.encode_public_share(pub).hex(), r['public_share'], what + ' public share')
            mon.eq([V.encode_input_share(x).hex() for x in ins], r['input_shares'], what + ' input shares')
            mon.ev('values_compared', 1 + len(ins))

        def verify_init():
            st, sh = V.verify_init(vk, ctx, j, ap, unhex(r['nonce']), V.decode_public_share(unhex(r['public_share'])),
                                   V.decode_input_share(j, unhex(r['input_shares'][j])))
            states[i, j, 0] = st
            mon.eq(V.encode_verifier_share(sh).hex(), r['verifier_shares'][0][j], what + ' verifier share')
            mon.ev('values_compared')

        def verifier_shares_to_message():
            st = states[i, 0, rnd] if (i, 0, rnd) in states else None
            mon.ok(st is not None, what + ' comes before the states it needs')
            sh = [V.decode_verifier_share(states[i, a, rnd], unhex(x)) for a, x in enumerate(r['verifier_shares'][rnd])]
            msg = V.verifier_shares_to_message(ctx, ap, sh)
            mon.eq(V.encode_verifier_message(msg).hex(), r['verifier_messages'][rnd], what + ' verifier message')
            mon.ev('values_compared')

        def verify_next():
            mon.ok((i, j, rnd - 1) in states, what + ' comes before the state it needs')
            st = states[i, j, rnd - 1]
            out = V.verify_next(ctx, st, V.decode_verifier_message(st, unhex(r['verifier_messages'][rnd - 1])))
            if rnd == V.ROUNDS:
                mon.eq(V.encode_out_share(out).hex(), r['out_shares'][j], what + ' output share')
            else:
                states[i, j, rnd] = out[0]
                mon.eq(V.encode_verifier_share(out[1]).hex(), r['verifier_shares'][rnd][j], what + ' verifier share')
            mon.ev('values_compared')

        def aggregate():
            a = V.agg_init(ap)
            for x in t['reports']:
                a = V.agg_update(ap, a, V.decode_out_share(ap, unhex(x['out_shares'][j])))
            mon.eq(V.encode_agg_share(a).hex(), t['agg_shares'][j], what + ' aggregate share')
            mon.ev('values_compared')

        def unshard():
            res = V.unshard(ap, [V.decode_agg_share(ap, unhex(x)) for x in t['agg_shares']], len(t['reports']))
            mon.eq(json.loads(json.dumps(res)), t['agg_result'], what + ' aggregate result')
            mon.ev('values_compared')
        fn = locals().get(o)
        mon.ok(fn is not None and o in OPS, what + ': unknown operation')
        if op['success']:
            fn()
        else:
            try:
                fn()
            except rec.Boom:
                raise
            except Exception as e:
                mon.ok('comes before' not in str(e), str(e))
            else:
                mon.ok(False, what + ' succeeds although recorded as failing')
            mon.ev('negative_operations')
            dead.add(i)
        mon.ev('operations_replayed')


OPS = ('shard', 'verify_init', 'verifier_shares_to_message', 'verify_next', 'aggregate', 'unshard')

PARAMS = dict(sum=dict(max_measurement='max'), sumvec=dict(max_measurement='max', length='length', chunk_length='chunk'),
              mp=dict(max_measurement='max', length='length', chunk_length='chunk'), hist=dict(length='length', chunk_length='chunk'),
              mhot=dict(length='length', max_weight='max', chunk_length='chunk'), poplar1=dict(bits='bits'), traced=dict(rounds='rounds'), count={})


def run_generated(g, P, mon):
    import vdaf_poc.test_utils as tu
    d, k = P['d'], P['k']
    name = f'{d} x {k}'
    ctx = g.ctx()
    if d['v'] == 'traced':
        V = rec.traced_vdaf()(d['shares'], d['rounds'], None, g.pick([16, 1, 32]), g.pick([16, 8]), g.pick([24, 300]))
        ms = [g.pick([i, 'x', [i, 1], None]) for i in range(k)]
        ap = g.pick([None, 3, 'p'])
        mon.ev('multi_round_vectors')
    else:
        V = gen.build(d)
        ms = [g.meas(d) for _ in range(k)]
        ap = None
        if d['v'] == 'poplar1':
            lv = g.pick([0, d['bits'] - 1, g.r.randrange(d['bits'])])
            ap = (lv, g.prefixes(lv, ms, g.r.randint(0, 6)))
    inst = g.r.randrange(1000)
    tmp = tempfile.mkdtemp(prefix='vmon-tv-')
    try:
        out = io.StringIO()
        with contextlib.redirect_stdout(out):
            t = tu.gen_test_vec_for_vdaf(tmp, V, ap, ctx, list(ms), inst, True)
        files = sorted(os.path.relpath(f, tmp) for f in glob.glob(tmp + '/**/*', recursive=True) if os.path.isfile(f))
        mon.eq(files, [f'{V.test_vec_name}_{inst}.json'], f'{name}: files written')
        raw = open(os.path.join(tmp, files[0])).read()
    finally:
        shutil.rmtree(tmp)
    f = json.loads(raw)
    mon.ok(json.loads(json.dumps(t)) == f, lambda: f'{name}: the file differs from the returned vector')
    with contextlib.redirect_stdout(io.StringIO()):
        quiet = tu.gen_test_vec_for_vdaf('/nonexistent/vmon', V, ap, ctx, list(ms), inst, False)
    mon.ok(json.loads(json.dumps(quiet)) == f, lambda: f'{name}: vectors differ with and without printing')
    S, ROUNDS = V.SHARES, V.ROUNDS
    mon.eq((f['shares'], f['ctx'], f['agg_param'], len(f['reports'])), (S, ctx.hex(), V.encode_agg_param(ap).hex(), k), f'{name}: recorded inputs')
    mon.eq(len(f['verify_key']) // 2, V.VERIFY_KEY_SIZE, f'{name}: verification key size')
    for key, dk in PARAMS[d['v']].items():
        mon.eq(f.get(key), d[dk], f'{name}: recorded parameter {key}')
    for i, r in enumerate(f['reports']):
        mon.eq(r['measurement'], json.loads(json.dumps(ms[i])), f'{name}: recorded measurement {i}')
        mon.eq((len(r['nonce']) // 2, len(r['rand']) // 2), (V.NONCE_SIZE, V.RAND_SIZE), f'{name}: nonce and randomness sizes')
        mon.eq((len(r['input_shares']), [len(x) for x in r['verifier_shares']], len(r['verifier_messages']), len(r['out_shares'])),
               (S, [S] * ROUNDS, ROUNDS, S), f'{name}: recorded messages of report {i}')
    mon.eq(len(f['agg_shares']), S, f'{name}: aggregate shares')
    want = collections.Counter()
    for i in range(k):
        want['shard', i, None, None] += 1
        for j in range(S):
            want['verify_init', i, j, None] += 1
            for q in range(ROUNDS):
                want['verify_next', i, j, q + 1] += 1
        for q in range(ROUNDS):
            want['verifier_shares_to_message', i, None, q] += 1
    for j in range(S):
        want['aggregate', None, j, None] += 1
    want['unshard', None, None, None] += 1
    have = collections.Counter((o['operation'], o.get('report_index'), o.get('aggregator_id'), o.get('round')) for o in f['operations'])
    mon.ok(have == want, lambda: f'{name}: operations missing {list((want - have))[:2]}, superfluous {list((have - want))[:2]}')
    mon.ok(all(o['success'] is True for o in f['operations']), f'{name}: an operation of a successful run is recorded as failing')
    order = [o['operation'] for o in f['operations']]
    mon.ok(order[-1] == 'unshard' and all(x == 'aggregate' for x in order[-1 - S:-1]), lambda: f'{name}: order of the final operations {order[-4:]}')
    replay(name, V, d, f, mon)
    # the recorded values are those of the execution, not merely consistent
    if d['v'] not in ('traced',):
        M = gen.model(d)
        for i, r in enumerate(f['reports']):
            pub, ins = M.shard(ctx, ms[i], bytes.fromhex(r['nonce']), bytes.fromhex(r['rand']))
            mon.eq((r['public_share'], r['input_shares']), (pub.hex(), [x.hex() for x in ins]), f'{name}: report {i} against the model')
            mon.ev('values_compared', 1 + len(ins))
        if d['v'] == 'poplar1':
            mon.eq(f['agg_result'], [sum(m[:ap[0] + 1] == q for m in ms) for q in ap[1]], f'{name}: result')
        elif ms:
            mon.eq(f['agg_result'], gen.expect_total(d, ms), f'{name}: result')
    mon.ev('vectors_generated')
    mon.case(name, str(ms)[:200])
    mon.sample(d['v'], vdaf=name, operations=len(order))
