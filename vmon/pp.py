"""Ping-pong support: synthetic multi-round VDAFs, sessions, the message-level specification."""
import hashlib

from vmon import gen


class Boom(Exception):
    pass


def H(*parts):
    h = hashlib.sha256()
    for p in parts:
        b = p if isinstance(p, bytes) else repr(p).encode()
        h.update(len(b).to_bytes(8, 'big') + b)
    return h.digest()


def stretch(seed, n):
    return hashlib.shake_128(seed).digest(n)


_classes = {}


def synthetic():
    """A two-party VDAF over the code under test's PingPong with any number of
    rounds. Every value a party computes depends on its role, input share,
    parameters and on the whole transcript, so that any mix-up shows."""
    R = gen.repo()
    if 'syn' in _classes:
        return _classes['syn']

    class Synthetic(R.pp.PingPong):
        ID, VERIFY_KEY_SIZE, NONCE_SIZE, RAND_SIZE, SHARES = 0xfffffff0, 4, 4, 4, 2
        test_vec_name = 'Synthetic'

        def __init__(self, rounds, sizes, fail=None):
            """sizes: (share size, message size) per round, cyclic.
            fail: (where, round, exception class) or None."""
            self.ROUNDS = rounds
            self.sizes = sizes
            self.fail = fail
            self.log = []

        def _fail(self, where, rnd=None, agg=None):
            if self.fail and self.fail[0] == where and self.fail[1] in (None, rnd) and \
                    (len(self.fail) < 4 or agg is None or self.fail[3] == agg):
                raise self.fail[2]('injected')

        def shard(self, ctx, measurement, nonce, rand):
            m = stretch(H(ctx, nonce, rand), 4)
            return H('pub', ctx, nonce, rand)[:8], [b'L' + m, b'H' + bytes(x ^ y for x, y in zip(m, measurement))]

        def is_valid(self, agg_param, prev):
            return not prev

        def _share(self, agg, rnd, tr, inp):
            # the size varies, the transcript digest comes first so that peers can compare
            n = self.sizes[rnd % len(self.sizes)][0]
            if n == 0:
                return (None, rnd, b'', b'')
            return (agg, rnd, tr, stretch(H('share', agg, rnd, tr, inp), n))

        def verify_init(self, verify_key, ctx, agg_id, agg_param, nonce, public_share, input_share):
            self.log.append(('verify_init', verify_key, ctx, agg_id, agg_param, nonce, public_share, input_share))
            self._fail('verify_init', 0, agg_id)
            tr = H('init', verify_key, ctx, agg_param, nonce, public_share)[:8]
            st = dict(agg=agg_id, rnd=0, tr=tr, inp=input_share, hist=[tr])
            return st, self._share(agg_id, 0, tr, input_share)

        def verifier_shares_to_message(self, ctx, agg_param, verifier_shares):
            self.log.append(('to_message', ctx, agg_param, tuple(verifier_shares)))
            (a0, r0, t0, s0), (a1, r1, t1, s1) = verifier_shares
            self._fail('to_message', r0)
            if (a0, a1) not in ((0, 1), (None, None)) or r0 != r1 or t0 != t1:
                raise ValueError('inconsistent verifier shares')
            n = self.sizes[r0 % len(self.sizes)][1]
            return (r0, H('msg', ctx, agg_param, r0, t0, s0, s1)[:8], stretch(H('body', s0, s1), n))

        def verify_next(self, ctx, verify_state, verifier_message):
            self.log.append(('verify_next', ctx, verify_state['agg'], verify_state['rnd'], verifier_message))
            rnd, dig, body = verifier_message
            st = verify_state
            self._fail('verify_next', st['rnd'], st['agg'])
            if rnd != st['rnd']:
                raise ValueError('wrong round')
            if dig[:1] == b'\xff' and dig == b'\xff' * 8:
                raise ValueError('verification failed')
            tr = H(st['tr'], ctx, rnd, dig, body)[:8]
            new = dict(agg=st['agg'], rnd=rnd + 1, tr=tr, inp=st['inp'], hist=st['hist'] + [tr])
            if rnd + 1 == self.ROUNDS:
                return ('out', st['agg'], H('out', tr, st['inp'])[:8])
            return new, self._share(st['agg'], rnd + 1, tr, st['inp'])

        def agg_init(self, agg_param):
            return []

        def agg_update(self, agg_param, agg_share, out_share):
            return agg_share + [out_share]

        def merge(self, agg_param, agg_shares):
            return sum(agg_shares, [])

        def unshard(self, agg_param, agg_shares, num_measurements):
            return agg_shares

        def encode_agg_param(self, agg_param):
            return agg_param.to_bytes(4, 'big')

        def decode_agg_param(self, encoded):
            self._fail('decode_agg_param')
            if len(encoded) != 4:
                raise ValueError('agg param')
            return int.from_bytes(encoded, 'big')

        def encode_input_share(self, x):
            return x

        def decode_input_share(self, agg_id, encoded):
            self._fail('decode_input_share')
            if len(encoded) != 5 or encoded[0] != b'LH'[agg_id]:
                raise ValueError('input share')
            return encoded

        def encode_public_share(self, x):
            return x

        def decode_public_share(self, encoded):
            self._fail('decode_public_share')
            if len(encoded) != 8:
                raise ValueError('public share')
            return encoded

        def encode_verifier_share(self, x):
            self._fail('encode_verifier_share', x[1], x[0])
            n = self.sizes[x[1] % len(self.sizes)][0]
            if n == 0:
                return b''
            return bytes([x[0]]) + x[1].to_bytes(2, 'big') + x[2] + x[3]

        def decode_verifier_share(self, st, b):
            self._fail('decode_verifier_share', st['rnd'], st['agg'])
            n = self.sizes[st['rnd'] % len(self.sizes)][0]
            if n == 0:
                if b:
                    raise ValueError('verifier share size')
                return (None, st['rnd'], b'', b'')
            if len(b) != 11 + n:
                raise ValueError('verifier share size')
            # belongs to the peer and to the state's round
            x = (b[0], int.from_bytes(b[1:3], 'big'), b[3:11], b[11:])
            if x[1] != st['rnd']:
                raise ValueError('verifier share of another round')
            return x

        def encode_verifier_message(self, x):
            self._fail('encode_verifier_message', x[0])
            return x[0].to_bytes(2, 'big') + x[1] + x[2]

        def decode_verifier_message(self, st, b):
            self._fail('decode_verifier_message', st['rnd'], st['agg'])
            n = self.sizes[st['rnd'] % len(self.sizes)][1]
            if len(b) != 10 + n:
                raise ValueError('verifier message size')
            return (int.from_bytes(b[:2], 'big'), b[2:10], b[10:])

        def encode_out_share(self, x):
            return x[2]

        def decode_out_share(self, agg_param, b):
            return b

        def encode_agg_share(self, x):
            return repr(x).encode()

        def decode_agg_share(self, agg_param, b):
            return b

    _classes['syn'] = Synthetic
    return Synthetic


def wrap(d):
    """The VDAF of descriptor d with the ping-pong methods mixed in."""
    R = gen.repo()
    base = type(gen.build(d))
    if base not in _classes:
        _classes[base] = type('PP' + base.__name__, (base, R.pp.PingPong), {})
    cls = _classes[base]
    v = d['v']
    if v == 'poplar1':
        return cls(d['bits'])
    args = dict(count=(), sum=('max',), sumvec=('length', 'max', 'chunk'), hist=('length', 'chunk'),
                mhot=('length', 'max', 'chunk'), mp=('proofs', 'length', 'max', 'chunk'))[v]
    a = [d[k] for k in args]
    if v == 'mp':
        a = [gen.fld(d['field'])] + a
    return cls(d['shares'], *a)


def frame(t, *items):
    return bytes([t]) + b''.join(len(x).to_bytes(4, 'big') + x for x in items)


def parse(b):
    """(type, items) or None if malformed."""
    if len(b) < 1 or b[0] > 2:
        return None
    items, o = [], 1
    for _ in range(2 if b[0] == 1 else 1):
        if len(b) < o + 4:
            return None
        n = int.from_bytes(b[o:o + 4], 'big')
        if len(b) < o + 4 + n:
            return None
        items.append(b[o + 4:o + 4 + n])
        o += 4 + n
    return (b[0], items) if o == len(b) else None


def expected_messages(vdaf, log):
    """The ping-pong messages prescribed for the broadcast log of a two-party run."""
    shares = {r: x for k, r, x in log if k == 'shares'}
    msgs = {r: x for k, r, x in log if k == 'msg'}
    out = []
    for k in range(vdaf.ROUNDS + 1):
        if k == 0:
            out.append(frame(0, shares[0][0]))
        elif k < vdaf.ROUNDS:
            out.append(frame(1, msgs[k - 1], shares[k][k % 2]))
        else:
            out.append(frame(2, msgs[k - 1]))
    return out


def kind(R, st):
    pp = R.pp
    for name in ('FinishedWithOutbound', 'Finished', 'Continued', 'Rejected', 'Start'):
        if type(st) is getattr(pp, name):
            return name
    return None


class Session:
    """One honest session driven step by step; every state kept."""

    def __init__(self, v, vk, ctx, ap, nonce, pub, ins):
        self.v, self.vk, self.ctx, self.ap, self.nonce, self.pub, self.ins = v, vk, ctx, ap, nonce, pub, ins

    def leader_init(self, **kw):
        a = dict(ap=self.ap, pub=self.pub, inp=self.ins[0])
        a.update(kw)
        return self.v.ping_pong_leader_init(self.vk, self.ctx, a['ap'], self.nonce, a['pub'], a['inp'])

    def helper_init(self, inbound, **kw):
        a = dict(ap=self.ap, pub=self.pub, inp=self.ins[1])
        a.update(kw)
        return self.v.ping_pong_helper_init(self.vk, self.ctx, a['ap'], self.nonce, a['pub'], a['inp'], inbound)

    def cont(self, party, state, inbound):
        f = self.v.ping_pong_helper_continued if party else self.v.ping_pong_leader_continued
        return f(self.ctx, self.ap, state, inbound)

    def run(self, R, limit=10000):
        """Returns [(party, state)] in order, one entry per step."""
        tr = [(0, self.leader_init())]
        states = {0: tr[0][1], 1: None}
        who = 1
        for _ in range(limit):
            last = tr[-1][1]
            if kind(R, last) not in ('Continued', 'FinishedWithOutbound'):
                break
            msg = last.outbound
            if states[who] is None:
                st = self.helper_init(msg)
            elif kind(R, states[who]) == 'Continued':
                st = self.cont(who, states[who], msg)
            else:
                break
            states[who] = st
            tr.append((who, st))
            who = 1 - who
        return tr
