"""C01: several caller threads, every interleaving decided by the scheduler."""
import zlib

import numpy as np

from .. import core, ops
from ..core import World
from ..sched import Killed, Scheduler, lazy_schedule


class Threads(World):
    id = 'threads'
    needs_solo = True
    run_timeout = 240
    budget = {'quick': (1100, 150), 'thorough': (40000, 780)}
    rule = ('2-4 real threads, each 1-3 operations on a shared pool of circuits, response functions and measured data; the seeded '
            'scheduler decides at QMix statements (15 % of runs: bytecode instructions) which thread continues; threads may be killed; '
            'every result is compared with the same operation alone in a pristine process; non-trivial: at least two switches inside '
            'operations')
    state_measure = 'distinct sets of (function preempted, thread continued) pairs'
    real = ['qmix (all operations)', 'numba kernels', 'OS threads (parked and released one at a time)']
    stubs = ['thread scheduler', 'terminal', 'locks created by QMix (none today)', 'analytic response function (some runs)']
    assumptions = ['preemption at QMix statement/bytecode boundaries; NumPy, SciPy and numba calls are atomic']

    def gen(self, rng, tier):
        heavy = rng.chance(0.08)
        P, nb = ops.gen_pool(rng, heavy, cost=4e3)
        n = rng.pick({2: 5, 3: 3, 4: 1})
        style = rng.pick({'mixed': 3, 'same-op': 4, 'same-kind': 3})
        only = None
        if style == 'same-kind':
            only = rng.choice([('hb',), ('qt', 'interp', 'check'), ('model', 'mkresp', 'respeval'), ('dciv', 'iv', 'dcif', 'ifd'),
                               ('math1', 'math2', 'clean', 'ifresp'), ('newcct', 'power', 'cctinfo'), ('hb', 'qt')])
        th = []
        first = ops.gen_op(rng, P, nb, heavy, only=only)
        for k in range(n):
            o = []
            for m in range(rng.pick({1: 4, 2: 2, 3: 1})):
                if style == 'same-op' and m == 0:
                    o.append(ops.gen_op(rng, P, nb, heavy, only=(first['op'],)) if k else first)
                else:
                    o.append(ops.gen_op(rng, P, nb, heavy, only=only))
            th.append(dict(ops=o, kill=None))
        if rng.chance(0.25):
            t = rng.choice(th)
            t['kill'] = [int(rng.logu(1, 20000)), rng.choice(['kill', 'KeyboardInterrupt', 'MemoryError'])]
        return dict(P=P, threads=th, mean=rng.pick({1: 1, 3: 2, 10: 3, 50: 3, 300: 2, 2000: 1, -1: 3}), opcodes=rng.chance(0.15),
                    sseed=rng.randrange(1 << 30))

    def execute(self, plan, run):
        from ..rng import Rng
        P = plan['P']
        used = sorted({n for t in plan['threads'] for o in t['ops'] for n in ops.names_in(o)})
        pool = {n: ops.build(P[n]) for n in used}
        before = {n: ops.fingerprint(pool[n]) for n in used}
        want = [[ops.solo_op(o, P) for o in t['ops']] for t in plan['threads']]
        got = [[None] * len(t['ops']) for t in plan['threads']]
        rng = Rng(plan['sseed'])
        n = len(plan['threads'])
        mean = plan['mean']

        def body(k):
            def fn(t):
                def work():
                    for m, o in enumerate(plan['threads'][k]['ops']):
                        got[k][m] = ops.result_of(o, pool.__getitem__, P)
                sch.traced(work)
            return fn
        base = lazy_schedule(rng, n, abs(mean))
        count = [0]

        def lazy(runnable, prev):
            count[0] += 1
            if mean == -1:
                # one thread stops at a random place, another one runs to its end (or far), then back
                idx = [i for i in runnable if i != prev] or runnable
                i = rng.choice(idx)
                return [i, int(rng.logu(1, 30000)) if count[0] % 2 else int(rng.logu(100, 1e7))]
            i, s = base(runnable, prev)
            if count[0] > 4000:
                s *= 100
            return [i, s]
        sch = Scheduler([body(k) for k in range(n)], plan.get('segs'), lazy, opcodes=plan['opcodes'], max_steps=20_000_000)
        for k, t in enumerate(plan['threads']):
            if t['kill']:
                sch.threads[k].kill_at = t['kill'][0]
                sch.threads[k].kill_exc = {'kill': Killed, 'KeyboardInterrupt': KeyboardInterrupt, 'MemoryError': MemoryError}[t['kill'][1]]()
        sch.run()
        run.steps = sch.total
        run.explicit = dict(plan, segs=sch.used)
        if sch.switches:
            run.fault('preemption', sch.switches)
        run.nontrivial = sch.switches >= 2
        run.state = format(zlib.crc32(repr(sorted(set((w, j) for _, w, j in sch.where))).encode()), '08x')
        if sch.overrun:
            run.violate('runaway', 'the threads did not finish within %d steps' % sch.max_steps)
            return
        if sch.deadlock:
            run.violate('deadlock', 'all threads are blocked')
            return
        for k, t in enumerate(plan['threads']):
            th = sch.threads[k]
            if th.killed:
                run.fault('thread-killed')
            for m, o in enumerate(t['ops']):
                g, w = got[k][m], want[k][m]
                run.event(k, m, o['op'], None if g is None else g[0], th.killed)
                if g is None:
                    if not th.killed:
                        raise th.exc if th.exc is not None else RuntimeError('operation did not run')
                    break
                if th.killed and g[0] == 'exc' and g[1] == 'MemoryError':
                    break          # QMix or the operation saw the injected exception
                run.probe('op-' + o['op'])
                d = ops.same(w, g, 1e-9)
                if d:
                    run.violate('result-' + o['op'], 'thread %d, %s: alone / with others %s' % (k, o['op'], d))
                    return
            if th.exc is not None and not th.killed:
                raise th.exc
        for n in used:
            after = ops.fingerprint(pool[n])
            if after != before[n]:
                run.violate('shared-object-changed', '%s (%s)%s' % (n, P[n]['k'], ops.fp_diff(before[n], after)))
                return

    def shrink(self, plan):
        th = plan['threads']
        segs = plan.get('segs')
        if len(th) > 2:
            for k in range(len(th)):
                mp = {i: (i if i < k else i - 1) for i in range(len(th)) if i != k}
                p = dict(plan, threads=th[:k] + th[k + 1:])
                if segs:
                    p['segs'] = [[mp[i], s] for i, s in segs if i != k]
                yield p
        for k in range(len(th)):
            if len(th[k]['ops']) > 1:
                for m in range(len(th[k]['ops'])):
                    yield dict(plan, threads=th[:k] + [dict(th[k], ops=th[k]['ops'][:m] + th[k]['ops'][m + 1:])] + th[k + 1:])
            if th[k]['kill']:
                yield dict(plan, threads=th[:k] + [dict(th[k], kill=None)] + th[k + 1:])
        if segs:
            yield from shrink_segments(plan)
        # fewer pool objects
        used = {n for t in th for o in t['ops'] for n in ops.names_in(o)}
        if set(plan['P']) - used:
            yield dict(plan, P={n: s for n, s in plan['P'].items() if n in used})


def shrink_segments(plan):
    segs = plan['segs']
    n = len(segs)
    if n > 8:
        for a, b in ((0, n // 2), (n // 2, n), (n // 4, n // 2), (n // 2, 3 * n // 4), (0, n // 4), (3 * n // 4, n)):
            yield dict(plan, segs=merge(segs[:a] + segs[b:]))
        step = max(1, n // 16)
        for a in range(0, n, step):
            yield dict(plan, segs=merge(segs[:a] + segs[a + step:]))
    else:
        for a in range(n):
            yield dict(plan, segs=merge(segs[:a] + segs[a + 1:]))
        for a in range(n):
            i, s = segs[a]
            for v in (s // 2, s - max(1, s // 8), s - 1):
                if 0 < v < s:
                    yield dict(plan, segs=segs[:a] + [[i, v]] + segs[a + 1:])


def merge(segs):
    out = []
    for i, s in segs:
        if out and out[-1][0] == i:
            out[-1][1] += s
        else:
            out.append([i, s])
    return out
