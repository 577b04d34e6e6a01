"""Recording VDAF, DAF and FLP objects: every value is a token naming its origin."""
import hashlib

from vmon import gen


class Boom(Exception):
    pass


def H(*parts):
    h = hashlib.sha256()
    for p in parts:
        b = p if isinstance(p, bytes) else repr(p).encode()
        h.update(len(b).to_bytes(8, 'big') + b)
    return h.digest()


def tok(kind, *parts, n=12):
    return kind.encode() + b':' + hashlib.shake_128(H(kind, *parts)).digest(n)


class State:
    """Verification state: deliberately opaque, without equality or order."""

    def __init__(self, agg, rnd, tr):
        self.agg, self.rnd, self.tr = agg, rnd, tr


class Bag:
    """Aggregate share: a multiset of output shares."""

    def __init__(self, items=()):
        self.items = sorted(items)

    def __eq__(self, other):
        return isinstance(other, Bag) and self.items == other.items


class Base:
    def setup(self, shares, fail=None, nonce=16, rand=24):
        self.SHARES, self.NONCE_SIZE, self.RAND_SIZE = shares, nonce, rand
        self.log = []
        self.fail = fail          # (operation, n-th call) to break
        self.count = {}

    def enter(self, name, *args):
        k = self.count.get(name, 0)
        self.count[name] = k + 1
        self.log.append((name,) + args)
        if self.fail and self.fail[0] == name and self.fail[1] == k:
            raise self.fail[2]('injected')

    def shard(self, ctx, measurement, nonce, rand):
        self.enter('shard', ctx, measurement, nonce, rand)
        t = H(ctx, measurement, nonce, rand)
        return tok('pub', t), [tok('in', j, t) for j in range(self.SHARES)]

    def is_valid(self, agg_param, previous_agg_params):
        return True

    def agg_init(self, agg_param):
        self.enter('agg_init', agg_param)
        return Bag()

    def agg_update(self, agg_param, agg_share, out_share):
        self.enter('agg_update', agg_param, out_share)
        return Bag(agg_share.items + [out_share])

    def merge(self, agg_param, agg_shares):
        self.enter('merge', agg_param)
        return Bag([x for a in agg_shares for x in a.items])

    def unshard(self, agg_param, agg_shares, num_measurements):
        self.enter('unshard', agg_param, [list(a.items) for a in agg_shares], num_measurements)
        return H('result', agg_param, num_measurements, *[x for a in agg_shares for x in a.items]).hex()


_cls = {}


def traced_vdaf():
    if 'vdaf' in _cls:
        return _cls['vdaf']
    R = gen.repo()

    class Traced(Base, R.vdaf.Vdaf):
        ID = 0xffffabcd
        test_vec_name = 'Traced'

        def __init__(self, shares, rounds, fail=None, key=16, nonce=16, rand=24, share=12, msg=10):
            self.setup(shares, fail, nonce, rand)
            self.ROUNDS, self.VERIFY_KEY_SIZE = rounds, key
            self.n_share, self.n_msg = share, msg

        def first(self, verify_key, ctx, j, agg_param, nonce, pub, inp):
            tr = H('init', verify_key, ctx, j, agg_param, nonce, pub, inp)
            return State(j, 0, tr), tok('vs', 0, j, tr, n=self.n_share)

        def following(self, ctx, st, msg):
            tr = H('next', ctx, st.tr, msg)
            if st.rnd + 1 == self.ROUNDS:
                return tok('out', st.agg, tr)
            return State(st.agg, st.rnd + 1, tr), tok('vs', st.rnd + 1, st.agg, tr, n=self.n_share)

        def combine(self, ctx, agg_param, shares):
            return tok('msg', ctx, agg_param, list(shares), n=self.n_msg)

        def verify_init(self, verify_key, ctx, agg_id, agg_param, nonce, public_share, input_share):
            self.enter('verify_init', verify_key, ctx, agg_id, agg_param, nonce, public_share, input_share)
            return self.first(verify_key, ctx, agg_id, agg_param, nonce, public_share, input_share)

        def verify_next(self, ctx, verify_state, verifier_message):
            self.enter('verify_next', ctx, verify_state.agg, verify_state.rnd, verify_state.tr, verifier_message)
            return self.following(ctx, verify_state, verifier_message)

        def verifier_shares_to_message(self, ctx, agg_param, verifier_shares):
            self.enter('to_message', ctx, agg_param, list(verifier_shares))
            return self.combine(ctx, agg_param, verifier_shares)

        def test_vec_set_type_param(self, test_vec):
            test_vec['rounds'] = self.ROUNDS
            return ['rounds']

        def encode_agg_param(self, x):
            return repr(x).encode()

        def decode_agg_param(self, b):
            import ast
            return ast.literal_eval(b.decode())

        def encode_agg_share(self, x):
            return b'|'.join(i.hex().encode() for i in x.items)

        def decode_agg_share(self, agg_param, b):
            return Bag([bytes.fromhex(i.decode()) for i in b.split(b'|')] if b else [])

        encode_input_share = encode_public_share = encode_verifier_share = encode_verifier_message = encode_out_share = \
            lambda self, x: x
        decode_public_share = lambda self, b: b
        decode_input_share = decode_verifier_share = decode_verifier_message = decode_out_share = lambda self, a, b: b
    _cls['vdaf'] = Traced
    return Traced


def traced_daf():
    if 'daf' in _cls:
        return _cls['daf']
    import vdaf_poc.daf

    class TracedDaf(Base, vdaf_poc.daf.Daf):
        ID = 0xffffabce

        def __init__(self, shares, fail=None, nonce=16, rand=24):
            self.setup(shares, fail, nonce, rand)

        def prep(self, ctx, agg_id, agg_param, nonce, public_share, input_share):
            self.enter('prep', ctx, agg_id, agg_param, nonce, public_share, input_share)
            return tok('out', ctx, agg_id, agg_param, nonce, public_share, input_share)
    _cls['daf'] = TracedDaf
    return TracedDaf


def traced_flp():
    if 'flp' in _cls:
        return _cls['flp']
    R = gen.repo()

    class TracedFlp(R.flp.Flp):
        def __init__(self, fname, ml, pl, vl, jr, pr, qr, answer, fail=None):
            self.field = gen.fld(fname)
            self.MEAS_LEN, self.PROOF_LEN, self.VERIFIER_LEN, self.OUTPUT_LEN = ml, pl, vl, ml
            self.JOINT_RAND_LEN, self.PROVE_RAND_LEN, self.QUERY_RAND_LEN = jr, pr, qr
            self.answer, self.fail = answer, fail
            self.log, self.count = [], {}

        def enter(self, name, *args):
            k = self.count.get(name, 0)
            self.count[name] = k + 1
            self.log.append((name,) + args)
            if self.fail and self.fail[0] == name and self.fail[1] == k:
                raise self.fail[2]('injected')

        def vec(self, n, *parts):
            h = hashlib.shake_128(H(*parts)).digest(8 * n)
            return [int.from_bytes(h[8 * i:8 * i + 7], 'little') for i in range(n)]

        def encode(self, measurement):
            return [self.field(x) for x in measurement]

        def prove(self, meas, prove_rand, joint_rand):
            a = gen.ints(meas), gen.ints(prove_rand), gen.ints(joint_rand)
            self.enter('prove', *a)
            self.proof = self.vec(self.PROOF_LEN, 'proof', a)
            return [self.field(x) for x in self.proof]

        def query(self, meas, proof, query_rand, joint_rand, num_shares):
            a = gen.ints(meas), gen.ints(proof), gen.ints(query_rand), gen.ints(joint_rand), num_shares
            v = self.vec(self.VERIFIER_LEN, 'verifier', a)
            self.enter('query', *a, v)
            return [self.field(x) for x in v]

        def decide(self, verifier):
            self.enter('decide', gen.ints(verifier))
            return self.answer

        def truncate(self, meas):
            return meas

        def decode(self, output, num_measurements):
            return gen.ints(output)
    _cls['flp'] = TracedFlp
    return TracedFlp
