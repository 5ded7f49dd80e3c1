"""C07 / C08 / C09: the harmonic balance solver as an interruptible, resumable, disturbable process."""
import copy
import io
import pickle
import zlib

import numpy as np

from .. import core, objs, refmodel, simclock
from ..core import World
from ..objs import RespFailure, build_circuit, build_resp, hb_circuit, num_b, resp_spec, shrink_circuit, tiny_circuit
from ..sched import StepBudget, Stepper

EXPECTED = (np.linalg.LinAlgError, RespFailure, KeyboardInterrupt, MemoryError, FloatingPointError, ZeroDivisionError)


def hb(cct, resp, nb, **kw):
    from qmix.harmonic_balance import harmonic_balance
    with np.errstate(all='ignore'):
        return harmonic_balance(cct, resp, nb, verbose=kw.pop('verbose', False), **kw)


def close(a, b, rtol=1e-9):
    """NaN/inf aware equality up to rounding"""
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return False
    if a.dtype == bool or b.dtype == bool:
        return a.dtype == b.dtype and bool((a == b).all())
    fa, fb = np.isfinite(a), np.isfinite(b)
    if not (fa == fb).all():
        return False
    if not fa.any():
        return True
    d = np.abs(a[fa] - b[fa])
    return bool((d <= rtol * (np.abs(a[fa]) + np.abs(b[fa])) + 1e-13).all())


def digest(x):
    """digest of an array, rounded so that it only depends on the computation"""
    with np.errstate(all='ignore'):
        return zlib.crc32(repr([complex(round(v.real, 9), round(v.imag, 9)) for v in np.asarray(x, dtype=complex).ravel()[:200]]).encode())


def nz(x):
    return np.array(x, copy=True)


def solo_resume(payload):
    """one solver segment in a pristine process, from a stored checkpoint"""
    cct, resp = build_circuit(payload['cct']), build_resp(payload['resp'])
    vj0 = None if payload['vj'] is None else pickle.loads(payload['vj'])
    try:
        return ('ok', hb(cct, resp, num_b(payload['nb']), max_it=payload['max_it'], vj_initial=vj0, mode='x', **payload['opt']))
    except EXPECTED as e:
        return ('raise', type(e).__name__)


core.SOLO_HANDLERS['hb_resume'] = solo_resume


def hb_options(rng):
    o = dict(stop_rerror=rng.choice([1e-3, 1e-3, 1e-2, 1e-5, 1e-7, 0.1]), damp_coeff=rng.choice([1.0, 1.0, 0.5, 0.9, 0.2, 1.3]))
    if rng.chance(0.3):
        o['zj_guess'] = rng.choice([0.3, 0.67, 1.0, 2.0])
    return o


class Resume(World):
    id = 'hb-resume'
    needs_solo = True
    budget = {'quick': (700, 220), 'thorough': (12000, 780)}
    rule = ('one uninterrupted solve against the same solve split into segments at random budgets, with interrupts inside segments '
            '(restart from the last checkpoint), checkpoints kept in memory or written/restored through serialisation, segments in the '
            'same session or in a new process; non-trivial: at least two segments ran')
    state_measure = 'distinct (iterations, split, restart places) patterns'
    real = ['qmix.harmonic_balance', 'qmix.qtcurrent', 'qmix.circuit', 'numba kernels', 'qmix.respfn (10 % of runs)']
    stubs = ['analytic response function (90 % of runs)', 'checkpoint store', 'process restart (fork of a pristine interpreter)']
    assumptions = ['interrupts arrive at QMix statement boundaries']

    def gen(self, rng, tier):
        c, nb = hb_circuit(rng, 1.5e5)
        opt = hb_options(rng)
        opt['stop_rerror'] = rng.choice([1e-3, 1e-6, 1e-9, 1e-12, 1e-300])
        total = rng.randint(1, 7)
        segs = []
        left = total
        while left > 0 or rng.chance(0.2):
            b = rng.randint(0, min(left, 3)) if rng.chance(0.9) else left
            segs.append(dict(max_it=b, where=rng.pick({'same': 3, 'new': 1}), store=rng.choice(['mem', 'copy', 'pickle']),
                             interrupt=round(rng.random(), 4) if rng.chance(0.25) else None))
            left -= b
            if len(segs) > 10:
                break
        if rng.chance(0.04):
            # a long run
            c, nb = tiny_circuit(rng)
            opt.update(stop_rerror=rng.choice([1e-9, 1e-12, 1e-300]), damp_coeff=rng.choice([0.3, 0.1, 1.0]))
            segs = [dict(max_it=rng.choice([5, 17, 30, 60]), where='same', store='copy', interrupt=None) for _ in range(rng.randint(2, 3))]
        return dict(cct=c, nb=nb, opt=opt, segs=segs, resp=resp_spec(rng, garbage=0.1, real=0.1), locked=rng.chance(0.2), on=rng.chance(0.5))

    def execute(self, plan, run):
        cct, resp = build_circuit(plan['cct']), build_resp(plan['resp'])
        if plan.get('locked'):
            cct.lock()
        nb, opt = num_b(plan['nb']), plan['opt']
        total = sum(s['max_it'] for s in plan['segs'])
        want = core.solo('hb_resume', dict(cct=plan['cct'], resp=plan['resp'], nb=plan['nb'], max_it=total, vj=None, opt=opt))
        if want[0] != 'ok':
            run.event('uninterrupted run raises', want[1])
            run.probe('uninterrupted-raises')
            return
        wvj, wn, wok = want[1]
        run.event('uninterrupted', wn, wok)
        vj, n, ok = None, 0, False
        stored = None
        pattern = []
        for k, s in enumerate(plan['segs']):
            if s['interrupt'] is not None:
                # the segment dies half way; only the last checkpoint survives
                st = Stepper()
                try:
                    with st:
                        hb(build_circuit(plan['cct']), build_resp(plan['resp']), nb, max_it=s['max_it'],
                           vj_initial=None if stored is None else pickle.loads(stored), mode='x', **opt)
                except EXPECTED:
                    pass
                at = 1 + int(s['interrupt'] * st.n)
                try:
                    with Stepper(raise_at=at, exc=KeyboardInterrupt()) as st2:
                        hb(cct, resp, nb, max_it=s['max_it'], vj_initial=vj, mode='x', **opt)
                except EXPECTED:
                    pass
                if st2.fired:
                    run.fault('interrupt-in-segment')
                    pattern.append('i')
                if s['store'] != 'mem' and stored is not None:
                    vj = pickle.loads(stored)
            try:
                if s['where'] == 'new':
                    r = core.solo('hb_resume', dict(cct=plan['cct'], resp=plan['resp'], nb=plan['nb'], max_it=s['max_it'],
                                                    vj=None if vj is None else pickle.dumps(vj), opt=opt))
                    if r[0] != 'ok':
                        raise np.linalg.LinAlgError(r[1])
                    r = r[1]
                    run.fault('restart-in-new-process')
                else:
                    r = hb(cct, resp, nb, max_it=s['max_it'], vj_initial=vj, mode='x', **opt)
            except EXPECTED as e:
                run.violate('resume-raises', 'segment %d raises %r, the uninterrupted run returned' % (k, e))
                return
            vj, dn, ok = r
            n += dn
            pattern.append('%s%d' % (s['where'][0], dn))
            stored = pickle.dumps(vj)
            if s['store'] == 'pickle':
                vj = pickle.loads(stored)
            elif s['store'] == 'copy':
                vj = nz(vj)
            run.event('segment', k, s['max_it'], dn, ok, digest(vj))
            if k:
                run.nontrivial = True
                run.fault('stop-and-resume')
            if ok and not plan.get('on'):
                break
            if ok:
                run.probe('resumed-after-convergence')
        run.state = '%d:%s' % (wn, ','.join(pattern))
        run.probe('iterations-%d' % min(wn, 4))
        if bool(ok) != bool(wok):
            run.violate('resume-status', 'converged=%s after resuming, %s uninterrupted (segments %s)' % (ok, wok, pattern))
        elif n != wn:
            run.violate('resume-iterations', '%d iterations after resuming, %d uninterrupted (segments %s)' % (n, wn, pattern))
        elif not close(vj, wvj, 2e-9):
            run.violate('resume-vj', 'junction voltages differ by up to %.3g (segments %s)' % (np.nanmax(np.abs(vj - wvj)), pattern))

    def shrink(self, plan):
        sg = plan['segs']
        for k in range(len(sg)):
            yield dict(plan, segs=sg[:k] + sg[k + 1:])
        for k, s in enumerate(sg):
            for kw in (dict(interrupt=None), dict(where='same'), dict(store='mem'), dict(max_it=max(0, s['max_it'] - 1))):
                if s != dict(s, **kw):
                    yield dict(plan, segs=sg[:k] + [dict(s, **kw)] + sg[k + 1:])
        yield from shrink_hb(plan)


def shrink_hb(plan):
    for c in shrink_circuit(plan['cct']):
        yield dict(plan, cct=c)
    if isinstance(plan['nb'], list):
        yield dict(plan, nb=max(plan['nb']))
    elif plan['nb'] > 2:
        yield dict(plan, nb=plan['nb'] - 1)
    if plan['resp'].get('kind') != 'sim':
        yield dict(plan, resp=dict(kind='sim', n=20, q=20, s=0.05))
    for k in ('garbage', 'calls'):
        if plan['resp'].get(k):
            yield dict(plan, resp={a: b for a, b in plan['resp'].items() if a != k})
    if plan['resp'].get('garbage') and len(plan['resp']['garbage']) > 1:
        for g in plan['resp']['garbage']:
            yield dict(plan, resp=dict(plan['resp'], garbage=[g]))
    o = plan['opt']
    for k, v in (('stop_rerror', 1e-3), ('damp_coeff', 1.0)):
        if o.get(k) != v:
            yield dict(plan, opt=dict(o, **{k: v}))
    if 'zj_guess' in o:
        yield dict(plan, opt={a: b for a, b in o.items() if a != 'zj_guess'})
    if plan.get('locked'):
        yield dict(plan, locked=False)
    if plan.get('warm'):
        yield dict(plan, warm=None)


def warm_start(spec, cct, resp, nb, opt):
    """starting junction voltages, possibly corrupted"""
    if spec is None:
        return None
    kind = spec['kind']
    rs = np.random.RandomState(spec['seed'])
    shape = cct.vt.shape + (cct.vb_npts,)
    if kind == 'solution':
        try:
            vj = hb(cct, resp, nb, max_it=spec.get('it', 10), stop_rerror=1e-9)
        except EXPECTED:
            return None
    elif kind == 'random':
        vj = spec['scale'] * (rs.randn(*shape) + 1j * rs.randn(*shape))
    elif kind == 'zero':
        vj = cct.initialize_vj()
    else:
        vj = cct.vt[:, :, None] * np.ones(cct.vb_npts) + 1e-3
    for c in spec.get('corrupt', []):
        f = 1 + c[0] % cct.num_f
        p = 1 + c[1] % cct.num_p
        i = c[2] % cct.vb_npts
        val = {'nan': np.nan, 'inf': np.inf, 'zero': 0.0, 'huge': 1e6, 'vast': 1e20, 'flip': None, 'nudge': None}[c[3]]
        if c[3] == 'flip':
            vj[f, p, i] *= -1
        elif c[3] == 'nudge':
            vj[f, p, i] *= 1 + spec.get('nudge', 1e-3)
        else:
            vj[f, p, i] = val
    return vj


def gen_warm(rng):
    if rng.chance(0.4):
        return None
    w = dict(kind=rng.pick({'solution': 4, 'random': 3, 'zero': 1, 'vt': 1}), seed=rng.randrange(1 << 30),
             scale=rng.choice([0.01, 0.1, 1.0, 30.0]), it=rng.choice([1, 2, 10]), corrupt=[],
             nudge=rng.choice([1e-2, 2e-3, 5e-4, 1e-5]))
    if rng.chance(0.6):
        for _ in range(rng.randint(1, 3)):
            w['corrupt'].append([rng.randrange(4), rng.randrange(3), rng.randrange(20),
                                 rng.pick({'nan': 2, 'inf': 1, 'zero': 2, 'huge': 2, 'vast': 1, 'flip': 2, 'nudge': 4})])
    return w


class Truth(World):
    id = 'hb-truth'
    budget = {'quick': (1600, 220), 'thorough': (30000, 780)}
    rule = ('solver runs with random circuits (1-4 tones), exhausted budgets, corrupted warm starts and damaged response tables; every '
            'reported status/mask is compared with an independent NumPy evaluation of the circuit equation; non-trivial: a fault '
            '(budget exhaustion, corruption, damaged table) took effect')
    state_measure = 'distinct (mode, tones, harmonics, converged, mask pattern, faults)'
    real = ['qmix.harmonic_balance (incl. check_hb_error)', 'qmix.qtcurrent', 'qmix.circuit', 'numba kernels', 'qmix.respfn (10 %)']
    stubs = ['analytic response function with damaged ranges (90 % of runs)']
    assumptions = ['points whose error is within 1e-6 (relative) of the target may be reported either way']

    def gen(self, rng, tier):
        c, nb = hb_circuit(rng, 2e5)
        return dict(cct=c, nb=nb, opt=hb_options(rng), max_it=rng.pick({0: 2, 1: 3, 2: 3, 3: 2, 5: 1, 10: 3, 25: 1}),
                    resp=resp_spec(rng, garbage=0.35, real=0.1), warm=gen_warm(rng), verbose=rng.chance(0.3))

    def execute(self, plan, run):
        from qmix.harmonic_balance import check_hb_error
        cct, resp = build_circuit(plan['cct']), build_resp(plan['resp'])
        nb, opt = num_b(plan['nb']), dict(plan['opt'])
        disturbed = bool(plan['resp'].get('garbage') or plan['warm'])
        vj0 = warm_start(plan['warm'], cct, resp, nb, opt)
        if plan['warm'] and plan['warm'].get('corrupt'):
            run.fault('corrupted-warm-start')
        if plan['resp'].get('garbage'):
            run.fault('damaged-response-table')
        stop = opt['stop_rerror']
        table = resp.table if hasattr(resp, 'table') else resp
        res = {}
        for mode in ('x', 'm', 'o'):
            try:
                res[mode] = hb(build_circuit(plan['cct']), resp, nb, max_it=plan['max_it'], mode=mode,
                               vj_initial=None if vj0 is None else vj0.copy(), verbose=plan['verbose'], **opt)
            except EXPECTED as e:
                run.event(mode, 'raises', type(e).__name__)
                run.probe('raises')
                if not disturbed and not isinstance(e, np.linalg.LinAlgError):
                    raise
        if not res:
            return
        if 'x' in res:
            vj, n, ok = res['x']
        elif 'm' in res:
            vj, n, ok = res['m'][0], None, None
        else:
            vj, n, ok = res['o'], None, None
        s = plan['cct']
        allzero = bool((cct.zt == 0).all())
        with np.errstate(all='ignore'):
            hbe = refmodel.hb_errors(vj, cct.freq, cct.vt, cct.zt, s['nf'], s['np'], cct.vb, table, nb)
            rel = hbe[0]
            sat, sure = refmodel.judge(hbe, stop)
        if allzero:
            # V_J = V_T exactly (0/0 relative error is no error)
            v = vj[1:, 1:].reshape(s['nf'] * s['np'], -1)
            d = np.abs(v - cct.vt[1:, 1:].reshape(-1)[:, None])
            sat = sure = d <= 1.001 * refmodel.MIN_VT
        near = sat & ~sure
        allsat, anyunsat = bool(sat.all()), not bool(sure.all())
        if ok is not None:
            run.event('x', n, ok, allsat, digest(vj))
            if ok is True or (ok is not False and bool(ok)):
                run.probe('converged')
                if not allsat:
                    k, i = np.argwhere(~sat)[0]
                    run.violate('false-convergence', 'reports convergence after %s iterations but signal %d at bias point %d has relative '
                                'error %g > %g' % (n, k, i, rel[k, i], stop))
                elif not allzero:
                    if not disturbed or np.isfinite(vj).all():
                        try:
                            with np.errstate(all='ignore'):
                                check_hb_error(vj, cct, resp, nb, stop * 1.001 + 1e-11 + 4 * float(np.max(hbe[3] / hbe[2])))
                        except AssertionError:
                            run.violate('check-rejects', 'check_hb_error rejects a converged solution')
            else:
                run.probe('not-converged')
                if plan['max_it'] < 25:
                    run.fault('budget-exhausted')
                if not anyunsat:
                    run.violate('false-failure', 'reports non-convergence (%s iterations) but every point satisfies the circuit equation: '
                                'largest relative error %g <= %g' % (n, np.max(rel), stop))
        if 'm' in res:
            mvj, mask = res['m']
            mask = np.asarray(mask)
            if mask.shape != (s['npts'],):
                run.violate('mask-shape', 'mask has shape %s, expected (%d,)' % (mask.shape, s['npts']))
            else:
                good = sat.all(axis=0)
                amb = near.any(axis=0)
                bad = (mask.astype(bool) != good) & ~amb
                run.event('m', mask.astype(int).tolist())
                if bad.any():
                    i = int(np.argwhere(bad)[0][0])
                    run.violate('mask-wrong', 'mask[%d] is %s but the largest relative error there is %g (target %g)' % (
                        i, mask[i], np.max(rel[:, i]), stop))
                if mask.any() and not mask.all():
                    run.probe('mask-mixed')
        vs = [('m', res['m'][0])] if 'm' in res else []
        vs += [('o', res['o'])] if 'o' in res else []
        for m, v in vs:
            if 'x' in res and not close(v, vj, 1e-9):
                run.violate('mode-changes-result', 'mode %s returns other junction voltages than mode x' % m)
        run.state = str((s['nf'], s['np'], n, ok, [bool(x) for x in sat.all(axis=0)], sorted(run.faults)))

    def shrink(self, plan):
        if plan['warm'] and plan['warm']['corrupt']:
            w = plan['warm']
            for k in range(len(w['corrupt'])):
                yield dict(plan, warm=dict(w, corrupt=w['corrupt'][:k] + w['corrupt'][k + 1:]))
        for m in {0, 1, plan['max_it'] // 2}:
            if m < plan['max_it']:
                yield dict(plan, max_it=m)
        if plan['verbose']:
            yield dict(plan, verbose=False)
        yield from shrink_hb(plan)


class Budget(World):
    id = 'hb-budget'
    budget = {'quick': (1000, 220), 'thorough': (20000, 780)}
    rule = ('solver runs under random iteration budgets with response functions that raise, return NaN, noise or garbage, latency and '
            'clock jumps, bad starting points and unreachable targets; progress is counted in QMix statements (simulated steps) and '
            'bounded by what the budget costs; the first iteration meeting the target is found independently; non-trivial: a fault fired '
            'or the budget was exhausted')
    state_measure = 'distinct (budget, iterations, outcome, faults)'
    real = ['qmix.harmonic_balance', 'qmix.qtcurrent', 'qmix.circuit', 'numba kernels']
    stubs = ['analytic response function with faults', 'clocks']
    assumptions = ['cost per iteration is calibrated on an undisturbed one-iteration run of the same tree']

    def gen(self, rng, tier):
        c, nb = hb_circuit(rng, 6e4)
        clk = []
        long = rng.chance(0.04)
        if long:
            c, nb = tiny_circuit(rng)
        if rng.chance(0.5):
            clk = [[rng.randint(1, 20), rng.choice(['wall+', 'wall-', 'freeze', 'slow']), round(rng.uniform(0, 1e4), 2)]
                   for _ in range(rng.randint(1, 3))]
        return dict(cct=c, nb=nb, opt=dict(hb_options(rng), **({'stop_rerror': 1e-300} if rng.chance(0.3) else {})),
                    max_it=rng.randint(30, 120) if long else rng.pick({0: 3, 1: 3, 2: 3, 3: 2, 5: 1, 10: 2}), mode=rng.choice(['x', 'x', 'm', 'o']),
                    resp=resp_spec(rng, garbage=0.3, calls=0.3), warm=gen_warm(rng), clock=clk, latency=rng.choice([0, 0.1, 1000.0]),
                    verbose=rng.chance(0.5))

    def execute(self, plan, run):
        cct = build_circuit(plan['cct'])
        nb, opt, B = num_b(plan['nb']), dict(plan['opt']), plan['max_it']
        clean = {k: v for k, v in plan['resp'].items() if k not in ('calls',)}
        try:
            with Stepper(budget=3_000_000):
                vj0 = warm_start(plan['warm'], cct, build_resp(clean), nb, opt)
        except StepBudget:
            run.violate('runaway', 'the warm-up harmonic balance (at most 10 iterations) exceeds 3,000,000 steps')
            return
        cp = lambda: None if vj0 is None else vj0.copy()
        # calibration: cost of 0 and 1 iterations of an undisturbed run
        base = dict(plan['resp'])
        base.pop('calls', None), base.pop('garbage', None)
        cost = []
        for b in (0, 1):
            with Stepper(budget=3_000_000) as st:
                try:
                    hb(build_circuit(plan['cct']), build_resp(base), nb, max_it=b, mode='x', stop_rerror=1e-300,
                       verbose=plan['verbose'])
                except StepBudget:
                    run.violate('runaway', '%d iterations of an undisturbed run exceed 3,000,000 steps' % b)
                    return
                except EXPECTED:
                    pass
            cost.append(st.n)
        per = max(cost[1] - cost[0], 1)
        limit = int(1.6 * (cost[0] + B * per)) + 500
        clock = simclock.SimClock()
        resp = build_resp(dict(plan['resp'], latency=plan['latency']), clock)
        ev = sorted(plan['clock'])

        def on_read(c):
            while ev and c.reads >= ev[0][0]:
                _, kind, x = ev.pop(0)
                run.fault('clock-' + kind)
                if kind == 'wall+':
                    c.wall_offset += x
                elif kind == 'wall-':
                    c.wall_offset -= x
                elif kind == 'freeze':
                    c.wall_frozen = c.wall()
                else:
                    c.advance(x)
        clock.on_read = on_read
        res = exc = None
        simclock.active = clock
        try:
            with Stepper(budget=limit) as st:
                res = hb(cct, resp, nb, max_it=B, mode=plan['mode'], vj_initial=cp(), verbose=plan['verbose'], **opt)
        except StepBudget:
            run.violate('no-termination', 'more than %d QMix steps for a budget of %d iterations (undisturbed: %d + %d per iteration)' % (
                limit, B, cost[0], per))
            return
        except BaseException as e:
            exc = e
        finally:
            simclock.active = None
        run.steps = st.n
        run.sim_time = clock.total
        for k in resp.fired:
            run.fault('resp-' + k)
        if plan['resp'].get('garbage'):
            run.fault('damaged-response-table')
        if vj0 is not None and plan['warm'].get('corrupt'):
            run.fault('corrupted-warm-start')
        if exc is not None:
            run.event('raises', type(exc).__name__)
            if not isinstance(exc, EXPECTED):
                raise exc
            if isinstance(exc, (RespFailure, KeyboardInterrupt)) and not resp.fired:
                raise exc
            run.probe('raises')
            run.state = str((B, 'raises', type(exc).__name__, sorted(run.faults)))
            return
        if plan['mode'] != 'x':
            run.event('returned', st.n)
            return
        vj, n, ok = res
        run.event('returned', n, ok, digest(vj))
        run.state = str((B, n, ok, sorted(run.faults)))
        if n > B:
            run.violate('over-budget', 'reports %d iterations with max_it=%d' % (n, B))
        if n < 0 or int(n) != n:
            run.violate('iteration-count', 'reports %r iterations' % (n,))
        if n == B and not ok:
            run.fault('budget-exhausted')
        # a call-dependent disturbance cannot be repeated: no trajectory check
        if plan['resp'].get('calls'):
            return
        if st.n > 1.6 * (cost[0] + n * per) + 500:
            run.violate('iteration-count', 'reports %d iterations but made %d steps (%d + %d per iteration)' % (n, st.n, cost[0], per))
        # trajectory: state after k iterations, judged independently
        if (cct.zt == 0).all():
            if n != 0:
                run.violate('iteration-count', 'no iteration is needed when all impedances are zero, reports %d' % n)
            return
        s = plan['cct']
        stop = opt['stop_rerror']
        o2 = dict(opt, stop_rerror=1e-300)
        for k in list(range(0, min(n, 10) + 1)) + ([n] if n > 10 else []):
            try:
                v, m, okk = hb(build_circuit(plan['cct']), build_resp(clean), nb, max_it=k, mode='x', vj_initial=cp(), **o2)
            except EXPECTED:
                return
            if okk and m < k:
                return        # exact solution
            with np.errstate(all='ignore'):
                hbe = refmodel.hb_errors(v, cct.freq, cct.vt, cct.zt, s['nf'], s['np'], cct.vb, resp.table, nb)
                rel = hbe[0]
                sat, sure = refmodel.judge(hbe, stop)
            met, unmet = bool(sure.all()), not bool(sat.all())
            if k < n and met:
                run.violate('stops-late', 'target %g was met after %d iterations (largest relative error %g) but %d were made' % (
                    stop, k, np.max(rel), n))
                return
            if k == n and unmet and n < B:
                run.violate('stops-early', 'stopped after %d of %d iterations although the largest relative error is %g > %g' % (
                    n, B, np.max(rel), stop))
                return
        run.probe('trajectory-checked')

    def shrink(self, plan):
        for m in {0, 1, 2, plan['max_it'] // 2}:
            if m < plan['max_it']:
                yield dict(plan, max_it=m)
        if plan['clock']:
            yield dict(plan, clock=[])
        if plan['latency']:
            yield dict(plan, latency=0)
        if plan['verbose']:
            yield dict(plan, verbose=False)
        yield from shrink_hb(plan)
