"""Forced thread schedules, exceptions injected at chosen lines, process isolation."""
import os
import pickle
import signal
import sys
import threading
import traceback

from vmon.harness import CPU_PER_CASE, Inconclusive, NonTermination, Violation


def isolated(fn):
    """fn() in a forked child that shares no later state with the caller."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            signal.signal(signal.SIGPROF, signal.SIG_DFL)
            signal.setitimer(signal.ITIMER_PROF, CPU_PER_CASE)
            try:
                out = ('ok', fn())
            except Violation as e:
                out = ('violation', str(e))
            except (ImportError, MemoryError, OSError, Inconclusive):
                out = ('inconclusive', traceback.format_exc())
            except BaseException as e:
                out = ('violation', f'unexpected {type(e).__name__}: {e}\n{traceback.format_exc(limit=-6)}')
            with os.fdopen(w, 'wb') as f:
                pickle.dump(out, f)
        except BaseException:
            code = 3
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r, 'rb') as f:
        data = f.read()
    _, status = os.waitpid(pid, 0)
    if not data:
        if os.WIFSIGNALED(status) and os.WTERMSIG(status) == signal.SIGPROF:
            raise NonTermination()
        raise Inconclusive(f'child ended with status {status}')
    kind, val = pickle.loads(data)
    if kind == 'violation':
        raise Violation(val)
    if kind == 'inconclusive':
        raise Inconclusive(val)
    return val


class Crash(Exception):
    pass


class HardCrash(BaseException):
    pass


def root():
    import vdaf_poc
    return os.path.dirname(os.path.abspath(list(vdaf_poc.__path__)[0])) + os.sep


def count_lines(fn, prefix):
    """(result or exception, number of line events in the repository)."""
    n = [0]

    def local(frame, event, arg):
        if event == 'line':
            n[0] += 1
        return local

    def tr(frame, event, arg):
        return local if frame.f_code.co_filename.startswith(prefix) else None
    sys.settrace(tr)
    try:
        r = fn()
    finally:
        sys.settrace(None)
    return r, n[0]


def crash_at(fn, prefix, k, exc):
    """Run fn, raising exc at the k-th repository line. Returns whether it fired."""
    n = [0]
    fired = [None]

    def local(frame, event, arg):
        if event == 'line' and fired[0] is None:
            n[0] += 1
            if n[0] == k:
                fired[0] = (os.path.basename(frame.f_code.co_filename), frame.f_lineno or 0)
                raise exc()
        return local

    def tr(frame, event, arg):
        return local if fired[0] is None and frame.f_code.co_filename.startswith(prefix) else None
    sys.settrace(tr)
    try:
        fn()
    except (Exception, HardCrash):
        pass
    finally:
        sys.settrace(None)
    return fired[0]


class Interleave:
    """Runs functions in threads, exactly one at a time, switching at
    repository lines (or bytecodes) as a seeded generator decides."""

    def __init__(self, rng, prefix, opcodes=False, p=0.02, limit=400):
        self.rng, self.prefix, self.opcodes, self.p, self.limit = rng, prefix, opcodes, p, limit
        self.switches = 0
        self.points = set()

    def run(self, fns):
        n = len(fns)
        sem = [threading.Semaphore(0) for _ in fns]
        live = set(range(n))
        results = [None] * n

        def switch(me):
            others = sorted(live - {me})
            if others:
                j = others[self.rng.randrange(len(others))]
                sem[j].release()
                return True
            return False

        def body(i):
            sem[i].acquire()
            left = [self.rng.randint(1, max(1, int(2 / self.p)))]

            def local(frame, event, arg):
                if event == ('opcode' if self.opcodes else 'line') and self.switches < self.limit:
                    left[0] -= 1
                    if left[0] <= 0:
                        # runs of very short slices and of long ones
                        left[0] = self.rng.randint(1, 6) if self.rng.random() < 0.5 else self.rng.randint(1, max(1, int(2 / self.p)))
                        if switch(i):
                            self.switches += 1
                            self.points.add((os.path.basename(frame.f_code.co_filename), frame.f_lineno or 0))
                            sem[i].acquire()
                return local

            def tr(frame, event, arg):
                if frame.f_code.co_filename.startswith(self.prefix):
                    if self.opcodes:
                        frame.f_trace_opcodes = True
                    return local
                return None
            sys.settrace(tr)
            try:
                results[i] = ('ok', fns[i]())
            except BaseException as e:
                results[i] = ('raised', e)
            finally:
                sys.settrace(None)
                live.discard(i)
                if live:
                    j = sorted(live)[self.rng.randrange(len(live))]
                    sem[j].release()
        threads = [threading.Thread(target=body, args=(i,), daemon=True) for i in range(n)]
        for t in threads:
            t.start()
        sem[self.rng.randrange(n)].release()
        for t in threads:
            t.join()
        return results
