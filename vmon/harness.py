"""Case scheduling, monitors, verdicts, evidence and replay."""
import collections
import importlib
import json
import multiprocessing as mp
import os
import random
import signal
import sys
import time
import traceback

WORKERS = int(os.environ.get('VMON_JOBS', '8'))
CPU_PER_CASE = 200          # seconds of CPU; healthy cases need less than 4
WALL_CAP = {'quick': 480, 'thorough': 3000}


class Violation(Exception):
    def __init__(self, msg, key=None):
        super().__init__(msg)
        self.key = key


class NonTermination(BaseException):
    pass


class Inconclusive(Exception):
    pass


class Mon:
    """What the monitors of one worker observed."""

    def __init__(self):
        self.c = collections.Counter()
        self.keys = set()
        self.samples = {}
        self.known = set()
        self.cpu = {}

    def ev(self, name, n=1):
        self.c[name] += n

    def case(self, *key):
        """Register a distinct non-trivial case."""
        self.keys.add(hash(key))

    def sample(self, kind, **detail):
        if kind not in self.samples:
            self.samples[kind] = {k: short(v) for k, v in detail.items()}

    def ok(self, cond, msg, key=None):
        if not cond:
            raise Violation(msg() if callable(msg) else msg, key)

    def eq(self, got, want, what):
        if got != want:
            raise Violation(f'{what}: got {short(got)} expected {short(want)}')

    def raises(self, what, fn, *args):
        """fn must fail with an ordinary exception."""
        try:
            r = fn(*args)
        except Exception:
            return
        raise Violation(f'{what}: not refused, returned {short(r)}')


def short(v, n=300):
    if isinstance(v, (bytes, bytearray)):
        v = bytes(v).hex()
    s = v if isinstance(v, (int, float, bool)) else str(v)
    return s if not isinstance(s, str) or len(s) <= n else s[:n] + '...'


class Ctl:
    """Handed to cases(): seeded randomness, tier, workload size, auto-dictionary."""

    def __init__(self, prop, seed, tier, words):
        self.rng = random.Random(f'{prop}/{seed}')
        self.tier = tier
        self.words = words

    def n(self, quick, thorough=None):
        return quick if self.tier == 'quick' else (thorough if thorough is not None else 6 * quick)


def case_rng(prop, case):
    return random.Random(f"{prop}|{case['seed']}|{case['kind']}|{json.dumps(case['p'], sort_keys=True)}")


def load(prop):
    return importlib.import_module('vmon.props.' + prop.lower())


# ------------------------------------------------------------------ worker

class Lines:
    """First-hit line coverage of the repository's modules (evidence only)."""

    def __init__(self, repo):
        self.root = os.path.join(repo, 'poc') + os.sep
        self.hit = set()

    def start(self):
        try:
            m = sys.monitoring
            m.use_tool_id(m.COVERAGE_ID, 'vmon')
            m.register_callback(m.COVERAGE_ID, m.events.LINE, self.cb)
            m.set_events(m.COVERAGE_ID, m.events.LINE)
        except Exception:
            pass

    def cb(self, code, line):
        f = code.co_filename
        if f.startswith(self.root):
            self.hit.add((f[len(self.root):], line))
        return sys.monitoring.DISABLE


def on_cpu(signum, frame):
    raise NonTermination()


def run_case(mod, prop, case, mon):
    """Returns None or (message, trace, key)."""
    signal.signal(signal.SIGPROF, on_cpu)
    signal.setitimer(signal.ITIMER_PROF, CPU_PER_CASE)
    try:
        mod.run(case, case_rng(prop, case), mon)
        return None
    except Violation as e:
        return str(e), traceback.format_exc(limit=-6), e.key
    except NonTermination:
        return f'no result after {CPU_PER_CASE} s of CPU', traceback.format_exc(limit=-8), None
    except (Inconclusive, ImportError, MemoryError, OSError):
        raise
    except Exception as e:
        return f'unexpected {type(e).__name__}: {e}', traceback.format_exc(limit=-8), None
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)


def worker(wid, prop, cases, nxt, stop, q, deadline, repo, known):
    mon = Mon()
    lines = Lines(repo)
    lines.start()
    done = []
    cpu_max, cpu_case = 0.0, None
    try:
        mod = load(prop)
        while not stop.value and time.monotonic() < deadline:
            with nxt.get_lock():
                i = nxt.value
                nxt.value += 1
            if i >= len(cases):
                break
            t = time.process_time()
            r = run_case(mod, prop, cases[i], mon)
            t = time.process_time() - t
            mon.cpu[cases[i]['kind']] = mon.cpu.get(cases[i]['kind'], 0) + t
            if t > cpu_max:
                cpu_max, cpu_case = t, cases[i]
            if r and r[2] in known:
                mon.known.add(r[2])
                r = None
            if r:
                stop.value = 1
                q.put(('violation', wid, i, list(done), r))
                break
            done.append(i)
        q.put(('done', wid, len(done), dict(mon.c), mon.keys, mon.samples, lines.hit, mon.known, cpu_max, cpu_case, mon.cpu))
    except BaseException:
        stop.value = 1
        q.put(('error', wid, None, None, traceback.format_exc()))


# ------------------------------------------------------------------ findings

def known_findings(here, prop):
    """Lines 'finding: property=C01 key=<mechanism> <text>' of known_findings.txt."""
    out = {}
    path = os.path.join(here, 'known_findings.txt')
    if os.path.exists(path):
        for line in open(path):
            if line.startswith('finding: property=' + prop + ' '):
                key, _, text = line.split('key=', 1)[1].strip().partition(' ')
                out[key] = text
    return out


# ------------------------------------------------------------------ main

def build_cases(mod, prop, seed, tier, repo, here):
    from vmon import gen, mine
    words = mine.words(repo, here)
    gen.WORDS = words
    ctl = Ctl(prop, seed, tier, words)
    cases = []
    for k, (kind, p) in enumerate(mod.cases(ctl)):
        cases.append(dict(kind=kind, p=p, seed=f'{seed}.{k}'))
    # first one case of every kind, then a seeded shuffle
    rng = random.Random(f'order/{prop}/{seed}')
    rng.shuffle(cases)
    seen, first, rest = set(), [], []
    for c in cases:
        (rest if c['kind'] in seen else first).append(c)
        seen.add(c['kind'])
    return first + rest, words


def check(prop, tier, here, repo):
    t0 = time.monotonic()
    seed = int(os.environ.get('VERIF_SEED', '1'))
    mod = load(prop)
    cases, words = build_cases(mod, prop, seed, tier, repo, here)
    known = known_findings(here, prop)
    ctx = mp.get_context('fork')
    nxt, stop, q = ctx.Value('i', 0), ctx.Value('i', 0), ctx.Queue()
    deadline = t0 + WALL_CAP[tier]
    procs = [ctx.Process(target=worker, args=(w, prop, cases, nxt, stop, q, deadline, repo, set(known)))
             for w in range(WORKERS)]
    for p in procs:
        p.start()
    counters, keys, samples, lines, viol, errors = collections.Counter(), set(), {}, set(), None, []
    known_hit, ran, left = set(), 0, set(range(WORKERS))
    cpu_max, cpu_case = 0.0, None
    cpu_kind = collections.Counter()
    dead_since = None
    while left:
        try:
            m = q.get(timeout=2)
        except Exception:
            dead = [w for w in left if not procs[w].is_alive()]
            if dead:
                dead_since = dead_since or time.monotonic()
                if time.monotonic() - dead_since > 10:
                    errors.append(f'workers {dead} died: {[procs[w].exitcode for w in dead]}')
                    break
            if viol and time.monotonic() - viol[3] > 30:
                break           # others are busy; the violation stands
            if time.monotonic() > deadline + CPU_PER_CASE + 60:
                errors.append('workers stuck past the deadline')
                break
            continue
        if m[0] == 'violation':
            if viol is None or m[2] < viol[0]:
                viol = (m[2], m[3], m[4], time.monotonic())
        elif m[0] == 'error':
            errors.append(m[4])
            left.discard(m[1])
        else:
            _, w, n, c, k, s, ln, kn, cm, cc, cpu = m
            cpu_kind.update(cpu)
            left.discard(w)
            ran += n
            counters.update(c)
            keys |= k
            lines |= ln
            known_hit |= kn
            if cm > cpu_max:
                cpu_max, cpu_case = cm, cc
            for kk, v in s.items():
                samples.setdefault(kk, v)
    for p in procs:
        if p.is_alive():
            p.kill()
        p.join()

    need = getattr(mod, 'NEED', {})
    short_of = {k: (counters.get(k, 0), v) for k, v in need.items() if counters.get(k, 0) < v}
    by_mod = collections.Counter(f for f, _ in lines)
    ev = dict(
        property=prop, tier=tier, seed=seed, level=getattr(mod, 'LEVEL', 'exploration'),
        coverage=dict(
            evaluations=ran, distinct_nontrivial=len(keys), rule=mod.RULE,
            samples=[dict(kind=k, **v) for k, v in sorted(samples.items())],
            monitor_events=dict(sorted(counters.items())),
            cases_planned=len(cases),
            lines_executed={k: v for k, v in sorted(by_mod.items())},
            dictionary_words=len(words['new']),
            max_case_cpu_s=round(cpu_max, 3)),
        assumptions=getattr(mod, 'ASSUMPTIONS', []),
        wall_s=round(time.monotonic() - t0, 2),
        violations=1 if viol else 0)
    evdir = os.environ.get('VMON_EVIDENCE', os.path.join(here, 'evidence'))
    os.makedirs(os.path.join(evdir, 'replay'), exist_ok=True)
    with open(os.path.join(evdir, prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    if os.environ.get('VMON_V'):
        print(json.dumps(dict(cpu_by_kind={k: round(x, 1) for k, x in cpu_kind.items()}, slowest=cpu_case, **ev['coverage']), indent=1)[:6000])

    if viol:
        i, hist, (msg, trace, key), _ = viol
        path = os.path.join(evdir, 'replay', f'{prop}-{seed}-{tier}.json')
        with open(path, 'w') as f:
            json.dump(dict(property=prop, case=cases[i], message=msg, trace=trace, words=words,
                           history=[cases[j] for j in hist[-200:]]), f, indent=1)
        print(trace)
        print(f'{prop}: {msg}')
        print(f"case: {json.dumps(cases[i])[:1000]}")
        print(f'VIOLATION property={prop} replay={path}')
        return 1
    if errors:
        print('\n'.join(errors))
        print(f'INCONCLUSIVE property={prop}: harness error')
        return 2
    for k in sorted(known_hit):
        print(f'KNOWN-FINDING: property={prop} {known[k]}')
    if short_of:
        print(f'INCONCLUSIVE property={prop}: deciding monitors not reached (seen, needed): {short_of}')
        return 2
    print(f'{prop} held: {ran} of {len(cases)} cases, {len(keys)} distinct, {sum(counters.values())} monitor events, '
          f'{ev["wall_s"]} s, slowest case {cpu_max:.2f} s')
    return 0


def replay(path):
    d = json.load(open(path))
    from vmon import gen
    gen.WORDS = d['words']
    mod = load(d['property'])
    r = run_case(mod, d['property'], d['case'], Mon())
    if not r:
        print('not reproduced alone; replaying the history of the worker')
        mon = Mon()
        for c in d['history'] + [d['case']]:
            r = run_case(mod, d['property'], c, mon)
            if r:
                break
    if r:
        print(r[1])
        print(f"{d['property']}: {r[0]}")
        print(f"VIOLATION property={d['property']} replay={path}")
        return 1
    print('not reproduced')
    return 0


def setup(here, repo):
    """The model must agree with the published vectors before it may judge anything."""
    from vmon import selftest
    return selftest.main(repo)


def main(argv, here, repo):
    if argv[:1] == ['--replay']:
        return replay(argv[1])
    if argv[:1] == ['--setup']:
        return setup(here, repo)
    tier = argv[1] if len(argv) > 1 else os.environ.get('VERIF_TIER', 'quick')
    return check(argv[0], tier, here, repo)
