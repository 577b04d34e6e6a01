"""The model against the published vectors (run by setup_cmd)."""
import glob
import json
import os

from vmon import gen, ref


def prio3_desc(name, t):
    d = dict(shares=t['shares'])
    base = name.split('_')[0]
    d['v'] = dict(Prio3Count='count', Prio3Sum='sum', Prio3SumVec='sumvec', Prio3Histogram='hist',
                  Prio3MultihotCountVec='mhot', Prio3SumVecWithMultiproof='mp').get(base)
    if d['v'] is None:
        return None
    for a, b in (('max_measurement', 'max'), ('max_weight', 'max'), ('length', 'length'), ('chunk_length', 'chunk'),
                 ('field', 'field'), ('proofs', 'proofs')):
        if a in t:
            d[b] = t[a]
    return d


def check_prio3(name, t):
    d = prio3_desc(name, t)
    if d is None or (d['v'] == 'mp' and ('proofs' not in d or 'field' not in d)):
        return 0
    m = gen.model(d)
    ctx, vk = bytes.fromhex(t['ctx']), bytes.fromhex(t['verify_key'])
    n = 0
    for r in t['reports']:
        nonce = bytes.fromhex(r['nonce'])
        pub, ins = m.shard(ctx, r['measurement'], nonce, bytes.fromhex(r['rand']))
        assert pub.hex() == r['public_share'], name
        assert [x.hex() for x in ins] == r['input_shares'], name
        st = [m.verify_init(vk, ctx, j, nonce, pub, x) for j, x in enumerate(ins)]
        assert [s[1].hex() for s in st] == r['verifier_shares'][0], name
        assert m.to_message(ctx, [s[1] for s in st]).hex() == r['verifier_messages'][0], name
        assert [m.F.enc(s[0][0]).hex() if isinstance(r['out_shares'][0], str) else
                [m.F.enc([x]).hex() for x in s[0][0]] for s in st] == r['out_shares'], name
        n += 1
    return n


def check_poplar1(name, t):
    m = ref.RPoplar1(t['bits'])
    ctx, vk = bytes.fromhex(t['ctx']), bytes.fromhex(t['verify_key'])
    raw = bytes.fromhex(t['agg_param'])
    level = int.from_bytes(raw[:2], 'big')
    n, k = (level + 8) // 8, int.from_bytes(raw[2:6], 'big')
    pf = []
    for i in range(k):
        x = int.from_bytes(raw[6 + i * n:6 + (i + 1) * n], 'big') >> (8 * n - level - 1)
        pf.append(tuple(bool((x >> (level - j)) & 1) for j in range(level + 1)))
    ap = (level, tuple(pf))
    assert m.enc_agg_param(ap) == raw
    c = 0
    for r in t['reports']:
        nonce = bytes.fromhex(r['nonce'])
        pub, ins = m.shard(ctx, tuple(r['measurement']), nonce, bytes.fromhex(r['rand']))
        assert pub.hex() == r['public_share'], name
        assert [x.hex() for x in ins] == r['input_shares'], name
        st = [m.verify_init(vk, ctx, j, ap, nonce, pub, x) for j, x in enumerate(ins)]
        assert [s[1].hex() for s in st] == r['verifier_shares'][0], name
        msg = m.to_message(level, [s[1] for s in st])
        assert msg.hex() == r['verifier_messages'][0]
        v2 = [m.next0(s[0], msg) for s in st]
        assert [x.hex() for x in v2] == r['verifier_shares'][1]
        assert m.to_message(level, v2).hex() == r['verifier_messages'][1]
        c += 1
    return c


def main(repo):
    n = 0
    for f in sorted(glob.glob(os.path.join(repo, 'test_vec', 'vdaf', '*.json'))):
        name = os.path.basename(f)
        t = json.load(open(f))
        try:
            if 'bad' in name:
                continue
            if name.startswith('Prio3'):
                n += check_prio3(name, t)
            elif name.startswith('Poplar1'):
                n += check_poplar1(name, t)
        except (AssertionError, KeyError) as e:
            print('model disagrees with the published vector', name, repr(e))
            return 2
    print('model reproduces', n, 'published reports')
    return 0 if n else 2
