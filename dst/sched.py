"""Deterministic scheduling of real threads at QMix statement boundaries.

Every simulated thread is a real thread that is parked on a semaphore.  Exactly
one is released at a time.  A trace function counts the QMix steps (line events,
optionally opcode events) the running thread makes; after the number of steps
the schedule grants, the thread parks itself and the next segment of the
schedule starts.  The schedule is a list of segments ``[thread, steps]``; a
seeded generator supplies it lazily and what was used is recorded, so that the
explicit list replays the run.

The same step counter places interrupts: ``raise exc at QMix step k``.
"""
import _thread
import sys
import threading

_QMIX = None
_real_Lock = _thread.allocate_lock
_real_RLock = threading.RLock


class Killed(BaseException):
    """A simulated thread/process is killed here."""


class StepBudget(BaseException):
    """The code under test made more steps than the budget allows."""


class Deadlock(Exception):
    pass


# --------------------------------------------------------------- lock seam
class SimLock:
    """Lock created by QMix code: blocking becomes a scheduling decision."""

    def __init__(self, reentrant=False):
        self._owner = None
        self._count = 0
        self._re = reentrant

    def acquire(self, blocking=True, timeout=-1):
        me = _thread.get_ident()
        while True:
            if self._owner is None or (self._re and self._owner == me):
                self._owner = me
                self._count += 1
                return True
            if not blocking:
                return False
            s = Scheduler.current
            if s is None or me not in s.by_ident:
                raise Deadlock('lock is held and nobody can release it')
            s.block(self)
            if timeout is not None and timeout >= 0 and self._owner is not None:
                return False

    def release(self):
        if self._owner is None:
            raise RuntimeError('release unlocked lock')
        self._count -= 1
        if self._count == 0:
            self._owner = None

    def locked(self):
        return self._owner is not None

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()

    def __reduce__(self):
        raise TypeError('cannot pickle a lock')


def install_lock_seam(qmix_dir):
    global _QMIX
    _QMIX = qmix_dir

    def mk(real, re):
        def factory(*a, **k):
            f = sys._getframe(1)
            if f.f_code.co_filename.startswith(_QMIX):
                return SimLock(re)
            return real(*a, **k)
        return factory
    threading.Lock = mk(_real_Lock, False)
    threading.RLock = mk(_real_RLock, True)


# ------------------------------------------------------- interrupt masking
_prot = {}


def protected(filename):
    """Lines where no interrupt is delivered: headers of ``with`` and ``try``
    (CPython cannot guarantee that an exit handler runs when the exception
    arrives between leaving the block and entering the handler), ``finally``
    and ``except`` bodies, i.e. running clean-up code is not interrupted again."""
    if filename in _prot:
        return _prot[filename]
    import ast
    out = set()
    try:
        with open(filename, 'rb') as f:
            tree = ast.parse(f.read())
        for n in ast.walk(tree):
            if isinstance(n, (ast.With, ast.AsyncWith)):
                out.update(range(n.lineno, n.body[0].lineno if n.body[0].lineno > n.lineno else n.lineno + 1))
            elif isinstance(n, ast.Try):
                out.add(n.lineno)
                for b in list(n.finalbody) + list(n.handlers):
                    out.update(range(b.lineno, b.end_lineno + 1))
    except (OSError, SyntaxError):
        pass
    _prot[filename] = out
    return out


# ------------------------------------------------- single-thread step control
class Stepper:
    """Counts QMix steps of the calling thread; may raise at step k."""

    def __init__(self, raise_at=None, exc=None, budget=None, opcodes=False, files=None, record=False):
        self.n = 0
        self.raise_at = raise_at
        self.exc = exc
        self.budget = budget
        self.opcodes = opcodes
        self.fired = None
        self.trail = [] if record else None

    def _global(self, frame, event, arg):
        if frame.f_code.co_filename.startswith(_QMIX):
            if self.opcodes:
                frame.f_trace_opcodes = True
            return self._local
        return None

    def _local(self, frame, event, arg):
        if event == 'line' or event == 'opcode':
            self.n += 1
            if self.raise_at is not None and self.n >= self.raise_at and \
                    frame.f_lineno not in protected(frame.f_code.co_filename):
                self.raise_at = None
                self.fired = '%s:%s' % (frame.f_code.co_name, frame.f_lineno)
                raise self.exc
            if self.budget is not None and self.n > self.budget:
                b = self.budget
                self.budget = None
                raise StepBudget('more than %d steps in %s' % (b, frame.f_code.co_name))
        return self._local

    def __enter__(self):
        self._old = sys.gettrace()
        sys.settrace(self._global)
        return self

    def __exit__(self, *a):
        sys.settrace(self._old)
        return False


# ------------------------------------------------------------------ threads
class SimThread:
    def __init__(self, idx, fn):
        self.idx = idx
        self.fn = fn
        self.sem = threading.Semaphore(0)
        self.done = False
        self.blocked_on = None
        self.steps = 0
        self.kill_at = None
        self.kill_exc = None
        self.killed = None
        self.exc = None
        self.fn_names = set()


class Scheduler:
    current = None

    def __init__(self, fns, segments=None, lazy=None, opcodes=False, max_steps=5_000_000, trace_extra=None):
        """segments: explicit list; lazy: callable(runnable idx list, prev) -> [thread, steps]"""
        self.threads = [SimThread(i, f) for i, f in enumerate(fns)]
        self.segments = list(segments) if segments is not None else None
        self.lazy = lazy
        self.used = []
        self.opcodes = opcodes
        self.pos = 0
        self.total = 0
        self.max_steps = max_steps
        self.by_ident = {}
        self.main = threading.Semaphore(0)
        self.left = 0
        self.cur = None
        self.switches = 0
        self.where = []         # (thread, function) at each preemption
        self.overrun = False
        self.deadlock = False

    # --- tracing, runs in the simulated thread
    def _global(self, frame, event, arg):
        if frame.f_code.co_filename.startswith(_QMIX):
            if self.opcodes:
                frame.f_trace_opcodes = True
            return self._local
        return None

    def _local(self, frame, event, arg):
        if event == 'line' or event == 'opcode':
            t = self.by_ident.get(_thread.get_ident())
            if t is not None:
                t.steps += 1
                self.total += 1
                if t.kill_at is not None and t.steps >= t.kill_at and \
                        frame.f_lineno not in protected(frame.f_code.co_filename):
                    t.kill_at = None
                    t.killed = frame.f_code.co_name
                    raise t.kill_exc
                if self.total > self.max_steps:
                    self.overrun = True
                    raise StepBudget('schedule exceeds %d steps' % self.max_steps)
                self.left -= 1
                if self.left <= 0:
                    self._yield(t, frame.f_code.co_name)
        return self._local

    def cut(self):
        """end the current segment at the coming scheduling point"""
        if self.left > 1 and self.used and self.segments is None:
            self.used[-1][1] -= self.left - 1
            self.left = 1

    def point(self):
        """explicit scheduling point (I/O seam)"""
        t = self.by_ident.get(_thread.get_ident())
        if t is None:
            return
        t.steps += 1
        self.total += 1
        self.left -= 1
        if self.left <= 0:
            self._yield(t, 'io')

    def block(self, lock):
        t = self.by_ident[_thread.get_ident()]
        t.blocked_on = lock
        self._yield(t, 'lock')

    def _runnable(self):
        out = []
        for t in self.threads:
            if t.done:
                continue
            if t.blocked_on is not None and t.blocked_on.locked():
                continue
            out.append(t.idx)
        return out

    def _next(self):
        """choose the next segment; returns the thread or None"""
        run = self._runnable()
        if not run:
            return None
        if self.segments is not None:
            while self.pos < len(self.segments):
                idx, n = self.segments[self.pos]
                self.pos += 1
                if idx in run:
                    self.used.append([idx, n])
                    self.left = n
                    return self.threads[idx]
            idx = run[0]
            self.left = 1 << 60
            return self.threads[idx]
        idx, n = self.lazy(run, self.cur.idx if self.cur else None)
        if self.used and self.used[-1][0] == idx:
            self.used[-1][1] += n
        else:
            self.used.append([idx, n])
        self.left = n
        return self.threads[idx]

    def _yield(self, t, where):
        nxt = self._next()
        if nxt is t:
            t.blocked_on = None
            return
        if nxt is None:
            self.deadlock = True
            raise Deadlock('all threads blocked')
        self.switches += 1
        self.where.append((t.idx, where, nxt.idx))
        self.cur = nxt
        nxt.blocked_on = None
        nxt.sem.release()
        t.sem.acquire()

    def _body(self, t):
        self.by_ident[_thread.get_ident()] = t
        t.sem.acquire()
        try:
            t.fn(t)
        except BaseException as e:     # noqa
            t.exc = e
        finally:
            sys.settrace(None)
            t.done = True
            nxt = self._next()
            if nxt is not None:
                self.cur = nxt
                nxt.blocked_on = None
                nxt.sem.release()
            else:
                if any(not x.done for x in self.threads):
                    self.deadlock = True
                self.main.release()

    def traced(self, fn):
        """run fn with scheduling active in the calling simulated thread"""
        sys.settrace(self._global)
        try:
            return fn()
        finally:
            sys.settrace(None)

    def run(self):
        Scheduler.current = self
        ths = []
        for t in self.threads:
            th = threading.Thread(target=self._body, args=(t,), daemon=True)
            ths.append(th)
            th.start()
        first = self._next()
        self.cur = first
        first.sem.release()
        self.main.acquire()
        Scheduler.current = None
        if not self.deadlock:
            for th in ths:
                th.join(10)
        return self


def lazy_schedule(rng, nthreads, mean):
    """geometric segment lengths with the given mean"""
    import math

    def nxt(run, prev):
        cand = [i for i in run if i != prev] or run
        idx = cand[rng.randrange(len(cand))]
        u = rng.random()
        n = 1 + int(-math.log(1 - u) * mean)
        return [idx, n]
    return nxt
