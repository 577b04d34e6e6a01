"""Generated validity circuits for the proof-system checks."""
import random

from vmon import gen, ref


class Plan:
    """A random circuit: affine combinations feeding gadget calls; plain-integer
    evaluation (spec) and construction of the Valid object under test."""

    def __init__(self, fname, seed, max_gadgets=3, max_calls=12, max_degree=5, shape=None):
        r = random.Random(seed)
        self.fname, self.F = fname, ref.FIELDS[fname]
        p = self.F.p
        self.meas_len = r.randint(1, 5)
        ng = r.randint(1, max_gadgets)
        self.gadgets = []            # (descriptor tree, calls)
        for _ in range(ng):
            calls = r.choice([1, 1, 2, 3, 4, 5, 7, 8, r.randint(1, max_calls), r.randint(1, max_calls)])
            calls = min(calls, max_calls)
            self.gadgets.append((self._gadget(r, max_degree), calls))
        order = [i for i, (_, c) in enumerate(self.gadgets) for _ in range(c)]
        if r.random() < 0.7:
            r.shuffle(order)
        self.calls = []              # (gadget index, [input combos])
        nvals = self.meas_len
        for gi in order:
            ar = arity(self.gadgets[gi][0])
            self.calls.append((gi, [self._combo(r, nvals) for _ in range(ar)]))
            nvals += 1
        self.nvals = nvals
        # watched values: all gadget outputs and some inputs
        self.m0 = [r.choice([0, 1, 2, p - 1, r.randrange(p), r.randrange(p)]) for _ in range(self.meas_len)]
        vals = self.values(self.m0)
        watch = r.sample(range(nvals), r.randint(1, min(nvals, 4)))
        if r.random() < 0.5 and nvals - 1 not in watch:
            watch.append(nvals - 1)
        self.watch = [(w, vals[w]) for w in watch]
        self.jr_len = r.choice([0, 0, 1, 2])
        mode = r.random()
        self.outs = []               # each: list of (watch index, sign) terms; with joint randomness powers if jr_len
        idx = list(range(len(self.watch)))
        if self.jr_len and mode < 0.7:
            self.outs = [[(i, 1) for i in idx]]
        else:
            self.outs = [[(i, 1)] for i in idx]
            if mode > 0.5:
                # redundant outputs that would cancel in a plain sum
                self.outs += [[(i, -1)] for i in idx]
        if r.random() < 0.2:
            self.outs.append([])      # constant zero output

    def _gadget(self, r, max_degree, depth=0):
        x = r.random()
        if depth < 2 and x < 0.3:
            return ('sum', self._gadget(r, max_degree, depth + 1), r.choice([1, 1, 2, 3, 4, r.randint(5, 14)]))
        if x < 0.65:
            return ('mul',)
        d = r.randint(1, max_degree)
        c = [r.choice([0, 1, -1, 2, -3, r.randint(-1000, 1000)]) for _ in range(d)] + [r.choice([1, -1, 2, 5, -7])]
        if r.random() < 0.2:
            c += [0] * r.randint(1, 2)      # leading zeros to be stripped
        return ('poly', c)

    def _combo(self, r, nvals):
        p = self.F.p
        k = r.choice([0, 1, 1, 1, 2])
        terms = [(r.randrange(nvals), r.choice([1, 1, p - 1, 2, r.randrange(p)])) for _ in range(k)]
        if nvals > self.meas_len and r.random() < 0.4:
            terms.append((r.randrange(self.meas_len, nvals), 1))
        const = r.choice([0, 0, 1, p - 1, r.randrange(p)])
        return terms, const

    # ---- specification on integers
    def values(self, meas):
        p = self.F.p
        vals = [x % p for x in meas]
        for gi, combos in self.calls:
            inp = [(sum(c * vals[i] for i, c in terms) + const) % p for terms, const in combos]
            vals.append(geval(self.F, self.gadgets[gi][0], inp))
        return vals

    def valid(self, meas):
        vals = self.values(meas)
        used = {i for o in self.outs for i, _ in o}
        return all(vals[w] == c for k, (w, c) in enumerate(self.watch) if k in used)

    def proof_len(self):
        return sum(arity(g) + degree(g) * (ref.pow2(1 + c) - 1) + 1 for g, c in self.gadgets)

    def verifier_len(self):
        return 1 + sum(arity(g) + 1 for g, _ in self.gadgets)

    # ---- object under test
    def build(self):
        bb = gen.repo().bb
        plan = self
        f = gen.fld(self.fname)

        class Generated(bb.Valid):
            field = f
            MEAS_LEN = plan.meas_len
            JOINT_RAND_LEN = plan.jr_len
            OUTPUT_LEN = plan.meas_len
            EVAL_OUTPUT_LEN = len(plan.outs)

            def __init__(self):
                self.GADGETS = [mk(bb, g, c) for g, c in plan.gadgets]
                self.GADGET_CALLS = [c for _, c in plan.gadgets]

            def encode(self, measurement):
                return [f(x) for x in measurement]

            def truncate(self, meas):
                return meas

            def decode(self, output, num_measurements):
                return [x.int() for x in output]

            def eval(self, meas, joint_rand, num_shares):
                inv = f(num_shares).inv()
                vals = list(meas)
                for gi, combos in plan.calls:
                    inp = []
                    for terms, const in combos:
                        x = f(const) * inv
                        for i, c in terms:
                            x += f(c) * vals[i]
                        inp.append(x)
                    vals.append(self.GADGETS[gi].eval(f, inp))
                out = []
                for o in plan.outs:
                    y = f(0)
                    rp = f(1)
                    for n, (i, sign) in enumerate(o):
                        w, c = plan.watch[i]
                        t = vals[w] - f(c) * inv
                        if plan.jr_len:
                            rp = rp * joint_rand[n % plan.jr_len]
                            t = t * rp
                        y = y + t if sign > 0 else y - t
                    out.append(y)
                return out

        return Generated()


def arity(g):
    return 2 if g[0] == 'mul' else 1 if g[0] == 'poly' else arity(g[1]) * g[2]


def strip(c):
    c = list(c)
    while c and c[-1] == 0:
        c.pop()
    return c


def degree(g):
    return 2 if g[0] == 'mul' else len(strip(g[1])) - 1 if g[0] == 'poly' else degree(g[1])


def geval(F, g, inp):
    p = F.p
    if g[0] == 'mul':
        return inp[0] * inp[1] % p
    if g[0] == 'poly':
        return ref.p_eval(F, g[1], inp[0])
    a = arity(g[1])
    return sum(geval(F, g[1], inp[i * a:(i + 1) * a]) for i in range(g[2])) % p


def mk(bb, g, calls):
    if g[0] == 'mul':
        return bb.Mul()
    if g[0] == 'poly':
        return bb.PolyEval(list(g[1]), calls)
    return bb.ParallelSum(mk(bb, g[1], calls), g[2])


def cost(plan):
    n = 0
    for g, c in plan.gadgets:
        P = ref.pow2(1 + c)
        n += (ref.pow2(degree(g) * (P - 1) + 1)) ** 2 + arity(g) * P
    return n


# ------------------------------------------------------------------ sharings

def additive(g, p, vec, n):
    style = g.r.random()
    sh = []
    for _ in range(n - 1):
        if style < 0.15:
            sh.append([0] * len(vec))
        elif style < 0.3:
            sh.append(list(vec))
        else:
            sh.append([g.fe(p) if style < 0.5 else g.r.randrange(p) for _ in vec])
    last = [(x - sum(s[i] for s in sh)) % p for i, x in enumerate(vec)]
    sh.insert(g.r.randrange(n), last)
    return sh


def affine_weights(g, p, n):
    w = [g.r.randrange(1, p) for _ in range(n - 1)]
    last = (1 - sum(w)) % p
    if last == 0:
        w[0] = (w[0] + 1) % p
        last = (1 - sum(w)) % p
    return w + [last]


def affine(g, F, vec, weights):
    p = F.p
    n = len(weights)
    sh = [[g.r.randrange(p) for _ in vec] for _ in range(n - 1)]
    wi = F.inv(weights[-1])
    sh.append([(x - sum(w * s[i] for w, s in zip(weights, sh))) * wi % p for i, x in enumerate(vec)])
    return sh


def lincomb(p, weights, vecs):
    return [sum(w * v[i] for w, v in zip(weights, vecs)) % p for i in range(len(vecs[0]))]
