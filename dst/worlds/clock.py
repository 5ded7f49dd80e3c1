"""C04: clocks that stall, jump and run backwards, and a slow terminal."""
import re
import sys

import numpy as np

from .. import core, objs, ops, simclock
from ..core import World
from ..objs import build_circuit, build_resp, hb_circuit, num_b, resp_spec, tiny_circuit

EXPECTED = (np.linalg.LinAlgError,)


class Terminal(core.Sink):
    """records every write with the simulated time at which it arrived"""

    def __init__(self, clock, latency, tick):
        self.clock, self.latency, self.tick, self.log = clock, latency, tick, []

    def write(self, s):
        self.log.append((self.clock.t, s))
        self.tick()
        self.clock.advance(self.latency)
        return len(s)

    def flush(self):
        self.tick()

    def lines(self):
        """(time the line started to be written, text)"""
        out, cur, t0 = [], '', None
        for t, s in self.log:
            if t0 is None:
                t0 = t
            cur += s
            while '\n' in cur:
                a, cur = cur.split('\n', 1)
                out.append((t0, a))
                t0 = t
            if not cur:
                t0 = None
        if cur:
            out.append((t0, cur))
        return out


class Clock(World):
    id = 'clock'
    needs_solo = True
    budget = {'quick': (1500, 150), 'thorough': (40000, 780)}
    rule = ('harmonic balance and tunnelling current runs (and other operations) with reporting on, a simulated clock that advances by '
            'callback and terminal latency only, wall-clock jumps, freezes and backward steps at random events; results are compared with '
            'a silent run in a pristine process and printed times with the simulated time; non-trivial: a clock or terminal fault fired')
    state_measure = 'distinct (operation, fault kinds, number of iterations)'
    real = ['qmix.harmonic_balance', 'qmix.qtcurrent', 'qmix.misc.progbar', 'other qmix operations', 'numba kernels']
    stubs = ['clocks (time.*, timeit.default_timer)', 'terminal', 'response function (analytic, with latency)']
    assumptions = ['start and end of the measured interval may be taken anywhere between the first/last statements of a call: the latency '
                   'of 12 terminal writes is allowed as slack']

    def gen(self, rng, tier):
        kind = rng.pick({'hb': 5, 'qt': 3, 'op': 2, 'bar': 1})
        ev = [[rng.randint(1, 60), rng.choice(['jump+', 'jump-', 'freeze', 'stall', 'unfreeze']), float('%.3g' % rng.logu(1e-2, 1e6))]
              for _ in range(rng.pick({0: 1, 1: 2, 2: 2, 4: 1}))]
        plan = dict(kind=kind, ev=sorted(ev), tlat=rng.choice([0, 0, 0.01, 1.5]), base=rng.choice([0.0, 1000.0, 1e7]),
                    wall=rng.choice([1.6e9, 0.0]))
        if kind in ('hb', 'qt'):
            c, nb = hb_circuit(rng, 4e4)
            plan.update(cct=c, nb=nb, resp=dict(resp_spec(rng), latency=rng.choice([0, 0.013, 2.5, 75.0, 4000.0])))
            if kind == 'hb':
                plan.update(opt=dict(max_it=rng.randint(0, 4), stop_rerror=rng.choice([1e-3, 1e-8, 1e-300])))
                if rng.chance(0.15):
                    plan['resp']['lat_at'] = rng.randint(1, 3)
                if rng.chance(0.05):
                    # a long run
                    plan['cct'], plan['nb'] = tiny_circuit(rng)
                    plan['opt'] = dict(max_it=rng.randint(30, 120), stop_rerror=1e-300, damp_coeff=rng.choice([1.0, 0.3]))
            else:
                plan.update(seed=rng.randrange(1 << 20), fl=rng.choice(['dc', 'all', 'dcf', 'f1']), mat=rng.chance(0.2))
        elif kind == 'op':
            P, nb = ops.gen_pool(rng, rng.chance(0.05), cost=1e4)
            op = ops.gen_op(rng, P, nb, 'D0' in P)
            plan.update(P={n: P[n] for n in sorted(set(ops.names_in(op)))}, op=op)
        else:
            plan.update(total=rng.choice([1, 2, 3, 7, 12, 64, 1000]), args=dict(decimals=rng.choice([0, 1, 2, 3]), bar_length=rng.choice([5, 20, 33])))
        return plan

    def call(self, plan, verbose, resp, quiet=True):
        if plan['kind'] == 'hb':
            from qmix.harmonic_balance import harmonic_balance
            with np.errstate(all='ignore'):
                return harmonic_balance(build_circuit(plan['cct']), resp, num_b(plan['nb']), verbose=verbose, mode='x', **plan['opt'])
        from qmix.qtcurrent import interpolate_respfn, qtcurrent
        c = build_circuit(plan['cct'])
        s = plan['cct']
        vj = ops.build(dict(k='vj', nf=s['nf'], np=s['np'], npts=s['npts'], seed=plan['seed'], scale=0.2))
        fl = ops.freq_list(plan, s)
        if plan['mat']:
            m = interpolate_respfn(c, build_resp({k: v for k, v in plan['resp'].items() if k != 'latency'}), num_b(plan['nb']))
        else:
            m = None
        return qtcurrent(vj, c, resp, fl, num_b(plan['nb']), verbose=verbose, resp_matrix=m)

    def execute(self, plan, run):
        clock = simclock.SimClock(plan['base'], plan['wall'])
        ev = [list(e) for e in plan['ev']]
        n = [0]
        stalled = [0.0]

        def tick(stall=False):
            n[0] += 1
            while ev and n[0] >= ev[0][0]:
                _, kind, x = ev.pop(0)
                run.fault('clock-' + kind)
                run.event(n[0], kind, x)
                if kind == 'jump+':
                    clock.wall_offset += x
                elif kind == 'jump-':
                    clock.wall_offset -= x
                elif kind == 'freeze':
                    clock.wall_frozen = clock.wall()
                elif kind == 'unfreeze':
                    clock.wall_frozen = None
                elif stall:
                    # real time passes, in the middle of the call: never
                    # before its first or after its last statement
                    clock.advance(x)
        term = Terminal(clock, plan['tlat'], tick)
        if plan['tlat']:
            run.fault('slow-terminal')
        run.state = plan['kind'] + str(sorted({e[1] for e in plan['ev']}))
        old = sys.stdout
        if plan['kind'] == 'bar':
            from qmix.misc.progbar import progress_bar
            simclock.active = clock
            sys.stdout = term
            try:
                for k in range(plan['total'] + 1):
                    tick()
                    progress_bar(k, plan['total'], **plan['args'])
            finally:
                simclock.active = None
                sys.stdout = old
            self.bars(run, term, 1)
            run.event('bar', len(term.log))
            return
        if plan['kind'] == 'op':
            op = plan['op']
            quiet = setv(op, False)
            want = ops.solo_op(quiet, plan['P'])
            pool = {k: ops.build(s) for k, s in plan['P'].items()}
            simclock.active = clock
            sys.stdout = term
            try:
                # the clock misbehaves in the middle of the call
                got = ops.result_of(setv(op, True), pool.__getitem__, plan['P'])
            finally:
                simclock.active = None
                sys.stdout = old
            run.event('op', op['op'], got[0], len(term.log))
            run.state += op['op']
            d = ops.same(ops_strip(want), ops_strip(got), 1e-9)
            if d:
                run.violate('result-depends-on-reporting:' + op['op'], 'silent / reporting with a disturbed clock: %s' % d)
            return
        # silent reference
        ref = build_resp({k: v for k, v in plan['resp'].items() if k not in ('latency', 'lat_at')})
        try:
            want = self.call(plan, False, ref)
        except EXPECTED:
            run.probe('raises')
            return
        resp = build_resp(dict(plan['resp']), clock)
        resp_call = resp.table

        def table(v):
            tick(True)
            return resp_call(v)
        resp.table = table
        simclock.active = clock
        sys.stdout = term
        clock.on_read = None
        t0 = clock.t
        try:
            got = self.call(plan, True, resp)
        finally:
            simclock.active = None
            sys.stdout = old
        t1 = clock.t
        run.sim_time = t1 - t0
        if plan['resp'].get('latency'):
            run.fault('slow-callback')
        d = ops.same(ops.norm(want), ops.norm(got), 1e-9)
        if d:
            run.violate('result-depends-on-reporting:' + plan['kind'], 'silent / reporting with a disturbed clock: %s' % d)
        its = got[1] if plan['kind'] == 'hb' else 0
        run.state += str(its)
        slack = 12 * plan['tlat']
        total = None
        for t, line in term.lines():
            if plan['kind'] == 'hb':
                m = re.search(r'(?<!max )sim time:\s*([-+.\dainfe]+) s(?: / *([-+.\dainfe]+) min)?(?: / *([-+.\dainfe]+) hrs)?', line)
                if m and 'max' not in line:
                    total = t - t0
                    run.probe('time-printed')
                    self.judge(run, m, total, slack, 'simulation time', 7.2)
                m = re.search(r'time per iteration:\s*([-+.\dainfe]+) s(?: / *([-+.\dainfe]+) min)?(?: / *([-+.\dainfe]+) hrs)?', line)
                if m and total is not None and its:
                    run.probe('time-per-iteration-printed')
                    self.judge(run, m, total / its, slack / its, 'time per iteration', 7.2)
            else:
                m = re.search(r'Time:\s*([-+.\dainfe]+) s', line)
                if m:
                    run.probe('time-printed')
                    self.judge(run, m, t - t0, slack, 'calculation time', 4)
        self.bars(run, term, its if plan['kind'] == 'hb' else 0)
        run.event(plan['kind'], its, len(term.log), round(t1 - t0, 4), n[0])

    def judge(self, run, m, truth, slack, what, prec):
        div = (1., 60., 3600.)
        half = 0.5e-4 if prec == 4 else 0.5e-2
        for g, d in zip(m.groups(), div):
            if g is None:
                continue
            try:
                x = float(g)
            except ValueError:
                x = float('nan')
            lo, hi = (truth - slack) / d - half * 1.02, truth / d + half * 1.02
            eps = 1e-9 * abs(truth)
            if not (min(lo, 0 if truth <= slack else lo) - eps <= x <= hi + eps):
                run.violate('reported-time', '%s: %r reported as %s (%d s units), the call really took %.6f s' % (what, g, m.group(0).strip(), d, truth))
                return

    def bars(self, run, term, groups):
        """progress indicators only move forward and end at 100 %"""
        text = ''.join(s for _, s in term.log)
        last = None
        n = 0
        for seg in re.split(r'(\r|\n)', text):
            m = re.search(r'(-?[\d.]+(?:e[-+]?\d+)?|nan|inf)\s*%', seg) if ('|' in seg) else None
            if not m:
                continue
            x = float(m.group(1))
            if last is None:
                n += 1
            elif x < last - 1e-9:
                run.violate('progress-backwards', 'progress went from %g %% to %g %%' % (last, x))
                return
            if not (0 <= x <= 100):
                run.violate('progress-range', 'progress shows %g %%' % x)
                return
            bar = seg.split('|')[1]
            fill = len(bar.rstrip())
            if bar and abs(fill / len(bar) * 100 - x) > 100. / len(bar):
                run.violate('progress-bar-length', 'bar is %d of %d long at %g %%' % (fill, len(bar), x))
                return
            last = None if x == 100 else x
            run.probe('progress-seen')
        if last is not None:
            run.violate('progress-incomplete', 'progress ended at %g %%' % last)

    def shrink(self, plan):
        for k in range(len(plan['ev'])):
            yield dict(plan, ev=plan['ev'][:k] + plan['ev'][k + 1:])
        if plan['tlat']:
            yield dict(plan, tlat=0)
        if plan['base']:
            yield dict(plan, base=0.0)
        if 'cct' in plan:
            for c in objs.shrink_circuit(plan['cct']):
                yield dict(plan, cct=c)
            if isinstance(plan['nb'], list):
                yield dict(plan, nb=max(plan['nb']))
            if plan.get('opt', {}).get('max_it', 0) > 1:
                yield dict(plan, opt=dict(plan['opt'], max_it=1))
            if plan['resp'].get('latency') not in (0, 1.0):
                yield dict(plan, resp=dict(plan['resp'], latency=1.0))


def setv(op, v):
    """the same operation with reporting on/off"""
    o = dict(op)
    if 'verbose' in o:
        o['verbose'] = v
    if 'kw' in o and 'verbose' in o['kw']:
        o['kw'] = dict(o['kw'], verbose=v)
    return o


def ops_strip(r):
    """results without the reporting flag itself"""
    def go(x):
        if isinstance(x, tuple) and len(x) == 2 and x[0] == 'verbose':
            return ('verbose', None)
        if isinstance(x, tuple):
            return tuple(go(y) for y in x)
        if isinstance(x, list):
            return [go(y) for y in x]
        return x
    return go(r)
