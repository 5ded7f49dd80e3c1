"""Simulated clocks.

Installed before QMix is imported, so that every ``from timeit import
default_timer`` in QMix binds the dispatcher.  While inactive every call goes
to the real clock.  While active:

* monotonic clocks (perf_counter, monotonic, process_time, default_timer)
  return simulated time;
* the wall clock (time.time) returns simulated time plus an offset that the
  simulator may step (NTP jump), freeze (stall) or run backwards.
"""
import time as _time
import timeit as _timeit

_REAL = {n: getattr(_time, n) for n in ('time', 'perf_counter', 'monotonic', 'process_time', 'thread_time', 'sleep',
                                        'time_ns', 'perf_counter_ns', 'monotonic_ns', 'process_time_ns')}
real_monotonic = _REAL['monotonic']
real_sleep = _REAL['sleep']
active = None          # SimClock or None


class SimClock:
    def __init__(self, base=1000.0, wall=1.6e9):
        self.t = base          # simulated monotonic time, s
        self.wall0 = wall
        self.wall_offset = 0.0
        self.wall_frozen = None
        self.reads = 0
        self.total = 0.0
        self.cpu = 0.0
        self.on_read = None    # called on every read (fault schedule)

    def advance(self, dt, cpu=0.0):
        """dt of real time passes, cpu of it computing (the rest waiting)"""
        self.t += dt
        self.total += dt
        self.cpu += cpu

    def wall(self):
        if self.wall_frozen is not None:
            return self.wall_frozen
        return self.wall0 + self.t + self.wall_offset


def _mono(name, ns=False):
    def f():
        c = active
        if c is None:
            return _REAL[name]()
        c.reads += 1
        if c.on_read is not None:
            c.on_read(c)
        t = c.cpu if 'process' in name or 'thread' in name else c.t
        return int(t * 1e9) if ns else t
    f.__name__ = name
    return f


def _wall(name, ns=False):
    def f():
        c = active
        if c is None:
            return _REAL[name]()
        c.reads += 1
        if c.on_read is not None:
            c.on_read(c)
        return int(c.wall() * 1e9) if ns else c.wall()
    f.__name__ = name
    return f


def _sleep(dt):
    c = active
    if c is None:
        return _REAL['sleep'](dt)
    c.advance(dt)


def install():
    for n in ('perf_counter', 'monotonic', 'process_time', 'thread_time'):
        setattr(_time, n, _mono(n))
    for n in ('perf_counter_ns', 'monotonic_ns', 'process_time_ns'):
        setattr(_time, n, _mono(n, True))
    _time.time = _wall('time')
    _time.time_ns = _wall('time_ns', True)
    _time.sleep = _sleep
    _timeit.default_timer = _time.perf_counter
