"""C15: pre-interpolated response function tables through a history of re-use."""
import zlib

import numpy as np

from .. import core, objs, ops
from ..core import World
from ..rng import Rng
from ..sched import Killed, Scheduler, Stepper, lazy_schedule


def direct(payload):
    """the current calculated without a table, in a pristine process"""
    from qmix.qtcurrent import qtcurrent
    cct = ops.build(payload['cct'])
    resp = ops.build(payload['resp'])
    vj = ops.build(payload['vj'])
    return ops.result_of2(lambda: qtcurrent(vj, cct, resp, payload['fl'], objs.num_b(payload['nb']), verbose=False))


def direct_table(payload):
    from qmix.qtcurrent import interpolate_respfn
    return ops.result_of2(lambda: interpolate_respfn(ops.build(payload['cct']), ops.build(payload['resp']), objs.num_b(payload['nb'])))


core.SOLO_HANDLERS['direct'] = direct
core.SOLO_HANDLERS['direct_table'] = direct_table


def per_tone(nb, nf):
    return (list(nb) if isinstance(nb, list) else [nb] * nf)[:nf]


class Tables(World):
    id = 'tables'
    needs_solo = True
    budget = {'quick': (1500, 120), 'thorough': (60000, 780)}
    rule = ('histories of making tables, using them, editing voltages and impedances in place, solving, failing and interrupted calls, '
            'wrong tables; every current from a table is compared with the direct calculation in a pristine process and every table must '
            'stay bit-identical; some runs use the tables from 2-3 scheduled threads; non-trivial: an edit, fault or switch between the '
            'making and a use of a table')
    state_measure = 'distinct sequences of (step kind, outcome)'
    real = ['qmix.qtcurrent', 'qmix.harmonic_balance', 'qmix.circuit', 'qmix.respfn (some runs)', 'numba kernels']
    stubs = ['analytic response function (most runs)', 'thread scheduler', 'terminal']
    assumptions = ['frequencies and bias voltages of the circuit do not change between making and using a table']

    def gen(self, rng, tier):
        spec, nb = objs.hb_circuit(rng.sub('c'), 6e3, tones={1: 4, 2: 5, 3: 3, 4: 2})
        cct = dict(spec, k='cct')
        if isinstance(nb, list):
            nb = nb[:max(spec['nf'], len(nb))]
        resp = [dict(k='resp', kind=rng.pick({'sim': 5, 'iv': 2, 'perfect': 2}), n=20, q=rng.choice([15, 30]), s=0.05, p=20) for _ in range(2)]
        for r in resp:
            if r['kind'] == 'iv':
                r['n'] = 301
        tabs = [dict(nb=nb, resp=0, lay=rng.pick({'as-is': 5, 'F': 1, 'copy': 1, 'strided': 1}))]
        if rng.chance(0.6):
            big = [b + rng.randint(0, 2) for b in nb] if isinstance(nb, list) else nb + rng.randint(0, 2)
            tabs.append(dict(nb=big, resp=rng.randrange(2), lay='as-is'))
        if rng.chance(0.4):
            tabs.append(dict(nb=per_tone(nb, spec['nf']) if not isinstance(nb, list) else nb, resp=rng.randrange(2), lay='as-is'))
        steps = []
        n = rng.randint(3, 12)
        threads = rng.chance(0.3)
        for k in range(n):
            a = rng.pick({'use': 8, 'edit': 4, 'editvj': 2, 'lock': .5, 'hb': 1, 'wrong': 2, 'fail': 1.2, 'interrupt': 2, 'scribble': 1,
                          'badresp': .7, 'direct': 1, 'remake': .7, 'other': 1})
            s = dict(a=a, t=rng.randrange(len(tabs)))
            if a in ('use', 'interrupt', 'fail', 'scribble', 'badresp', 'direct'):
                s['fl'] = rng.choice(['dc', 'f1', 'all', 'dcf', 'list0', 'mix'])
                s['v'] = rng.randrange(2)
                s['verbose'] = rng.chance(0.2)
                # a table covers any smaller limits
                s['less'] = rng.choice([0, 0, 0, 1, 2])
            if a == 'interrupt':
                s.update(at=int(rng.logu(1, 4000)), exc=rng.choice(['KeyboardInterrupt', 'MemoryError']), make=rng.chance(0.3))
            elif a == 'other':
                # a table of the same size for another circuit (or response function), made in between
                s.update(ff=rng.choice([0.5, 0.9, 1.1]), dv=rng.choice([0., 0., 0.05]), swap=rng.chance(0.4), fl=rng.choice(['dc', 'all', 'dcf']), v=rng.randrange(2),
                         less=0, use=rng.chance(0.5))
            elif a == 'edit':
                s.update(w=rng.choice(['vt', 'zt', 'vt', 'zt', 'comment']), f=rng.randrange(spec['nf']), p=rng.randrange(spec['np']),
                         val=[round(rng.uniform(0.05, .8), 3), round(rng.uniform(-.5, .5), 3)])
            elif a == 'editvj':
                s.update(v=rng.randrange(2), seed=rng.randrange(1 << 30))
            elif a == 'wrong':
                s['how'] = rng.choice(['small', 'small', 'npts', 'ndim', 'tone'])
                s['fl'] = 'dcf'
            elif a == 'fail':
                s['how'] = rng.choice(['vj-shape', 'freq-zero', 'nb-short'])
            steps.append(s)
        vj = [dict(k='vj', nf=spec['nf'], np=spec['np'], npts=spec['npts'], seed=rng.randrange(1 << 30), scale=rng.choice([.05, .3]),
                   lay=rng.choice(['c', 'c', 'f'])) for _ in range(2)]
        plan = dict(cct=cct, resp=resp, vj=vj, tabs=tabs, steps=steps)
        if threads:
            plan['threads'] = [[dict(t=rng.randrange(len(tabs)), v=rng.randrange(2), fl=rng.choice(['dc', 'all', 'dcf']), less=rng.choice([0, 0, 1]))
                                for _ in range(rng.randint(1, 3))] for _ in range(rng.randint(2, 3))]
            plan['mean'] = rng.choice([1, 3, 20, 200])
            plan['sseed'] = rng.randrange(1 << 30)
            plan['kill'] = [rng.randrange(2), int(rng.logu(1, 2000))] if rng.chance(0.3) else None
        return plan

    def limits(self, plan, s):
        nb = plan['tabs'][s['t']]['nb']
        d = s.get('less', 0)
        return [max(1, b - d) for b in nb] if isinstance(nb, list) else max(1, nb - d)

    def layout(self, m, lay):
        if lay == 'F':
            return np.asfortranarray(m)
        if lay == 'copy':
            return m.copy()
        if lay == 'strided':
            big = np.full((m.shape[0] * 2,) + m.shape[1:], 7. + 7j)
            big[::2] = m
            return big[::2]
        return m

    def execute(self, plan, run):
        from qmix.harmonic_balance import harmonic_balance
        from qmix.qtcurrent import interpolate_respfn, qtcurrent
        spec = {k: v for k, v in plan['cct'].items()}
        spec['vt'] = [[list(x) for x in r] for r in spec['vt']]
        spec['zt'] = [[list(x) for x in r] for r in spec['zt']]
        cct = ops.build(spec)
        resp = [ops.build(r) for r in plan['resp']]
        vspec = [dict(v) for v in plan['vj']]
        vj = [ops.build(v) for v in vspec]
        tabs = []
        for t in plan['tabs']:
            tabs.append(self.layout(interpolate_respfn(cct, resp[t['resp']], objs.num_b(t['nb'])), t['lay']))
            w = core.solo('direct_table', dict(cct=spec, resp=plan['resp'][t['resp']], nb=t['nb']))
            d = ops.same(w, ('ok', ops.norm(np.ascontiguousarray(tabs[-1]))))
            if d:
                run.violate('table-differs', 'interpolate_respfn with num_b=%s: pristine / here %s' % (t['nb'], d))
                return
        keep = [zlib.crc32(t.tobytes()) for t in tabs]
        seq = []
        touched = False

        def want(s):
            t = plan['tabs'][s['t']]
            return core.solo('direct', dict(cct=spec, resp=plan['resp'][t['resp']], vj=vspec[s['v']], fl=self.fl(s, spec), nb=self.limits(plan, s)))

        def call(s, table=None, vj_=None, **kw):
            t = plan['tabs'][s['t']]
            m = tabs[s['t']] if table is None else table
            return qtcurrent(vj[s['v']] if vj_ is None else vj_, kw.get('cct', cct), kw.get('resp', resp[t['resp']]), self.fl(s, kw.get('spec', spec)),
                             kw.get('nb', objs.num_b(self.limits(plan, s))), verbose=s.get('verbose', False), resp_matrix=m)

        def judge(s, got, k, sig='use'):
            w = want(s)
            d = ops.same(w, got)
            if d:
                run.violate('current-' + sig, 'step %d: direct / with the table (num_b %s, table for %s, %s): %s' % (
                    k, self.limits(plan, s), plan['tabs'][s['t']]['nb'], s['fl'], d))
                return True
            return False

        for k, s in enumerate(plan['steps']):
            a = s['a']
            out = ''
            if a == 'use':
                got = ops.result_of2(lambda: call(s))
                if judge(s, got, k):
                    return
                out = got[0]
                run.probe('table-used')
                if touched:
                    run.nontrivial = True
            elif a == 'scribble':
                # the caller scales its result in place
                got = call(s)
                got *= 1e3
                got += 17
                run.fault('result-edited')
            elif a == 'direct':
                got = ops.result_of2(lambda: qtcurrent(vj[s['v']], cct, resp[plan['tabs'][s['t']]['resp']], self.fl(s, spec),
                                                      objs.num_b(self.limits(plan, s)), verbose=False))
                if judge(s, got, k, 'direct'):
                    return
            elif a == 'edit':
                if s['w'] == 'comment':
                    cct.set_name('x%d' % k, s['f'] + 1, s['p'] + 1)
                elif spec.get('locked'):
                    out = 'locked'
                else:
                    getattr(cct, s['w'])[s['f'] + 1, s['p'] + 1] = complex(*s['val'])
                    spec[s['w']][s['f']][s['p']] = list(s['val'])
                    touched = True
                    run.probe('edit-' + s['w'])
            elif a == 'editvj':
                vspec[s['v']] = dict(vspec[s['v']], seed=s['seed'])
                vj[s['v']][:] = ops.build(vspec[s['v']])
                touched = True
                run.probe('edit-vj')
            elif a == 'lock':
                if spec.get('locked'):
                    cct.unlock()
                    spec.pop('locked')
                else:
                    cct.lock()
                    spec['locked'] = True
            elif a == 'hb':
                t = plan['tabs'][s['t']]
                with np.errstate(all='ignore'):
                    try:
                        harmonic_balance(cct, resp[t['resp']], objs.num_b(t['nb']), max_it=1, verbose=False)
                    except np.linalg.LinAlgError:
                        out = 'singular'
                touched = True
            elif a == 'other':
                t = plan['tabs'][s['t']]
                spec2 = dict(spec, freq=[x * s['ff'] for x in spec['freq']], vmin=spec['vmin'] + s['dv'], vmax=spec['vmax'] + s['dv'])
                ri = t['resp'] ^ 1 if s['swap'] else t['resp']
                cct2 = ops.build(spec2)
                m = interpolate_respfn(cct2, resp[ri], objs.num_b(t['nb']))
                run.fault('other-table')
                touched = True
                if s['use']:
                    got = ops.result_of2(lambda: call(s, table=m, cct=cct2, spec=spec2, resp=resp[ri]))
                    w = core.solo('direct', dict(cct=spec2, resp=plan['resp'][ri], vj=vspec[s['v']], fl=self.fl(s, spec2), nb=self.limits(plan, s)))
                    d = ops.same(w, got)
                    if d:
                        run.violate('current-other', 'step %d: other circuit, direct / with its table: %s' % (k, d))
                        return
            elif a == 'remake':
                t = plan['tabs'][s['t']]
                m = interpolate_respfn(cct, resp[t['resp']], objs.num_b(t['nb']))
                if not np.array_equal(m, tabs[s['t']], equal_nan=True):
                    run.violate('table-differs', 'step %d: making the table again gives another one' % k)
                    return
                # the old one is scribbled on: the new one must be independent of it
                tabs[s['t']][:] = 1 + 1j
                tabs[s['t']] = m
                keep[s['t']] = zlib.crc32(m.tobytes())
                run.fault('table-discarded')
            elif a == 'wrong':
                bad = self.wrong(tabs[s['t']], plan['tabs'][s['t']], spec, s['how'], cct, resp, plan)
                if bad is not None:
                    s2 = dict(s, v=0, less=0)
                    r = ops.result_of2(lambda: call(s2, table=bad))
                    run.fault('wrong-table-' + s['how'])
                    out = r[0]
                    if r[0] == 'ok':
                        run.violate('wrong-accepted', 'step %d: a table of shape %s was accepted for num_b %s and %d bias points (%s)' % (
                            k, bad.shape, self.limits(plan, s2), spec['npts'], s['how']))
                        return
                    touched = True
            elif a == 'fail':
                run.fault('failing-call-' + s['how'])
                try:
                    if s['how'] == 'vj-shape':
                        call(s, vj_=vj[s['v']][:, :, :0])
                    elif s['how'] == 'nb-short':
                        call(s, nb=(2,) * (spec['nf'] - 1))
                    else:
                        if not spec.get('locked'):
                            f0 = cct.freq[1]
                            cct.freq[1] = 0.
                            try:
                                call(s)
                            finally:
                                cct.freq[1] = f0
                except Exception as e:
                    out = type(e).__name__
                touched = True
            elif a == 'badresp':
                # the response function is replaced and a direct call with it fails
                bad = objs.SimResp(calls={'all': ['raise', 0]})
                try:
                    qtcurrent(vj[s['v']], cct, bad, self.fl(s, spec), objs.num_b(self.limits(plan, s)), verbose=False)
                except objs.RespFailure:
                    run.fault('response-raises')
                touched = True
            elif a == 'interrupt':
                exc = {'KeyboardInterrupt': KeyboardInterrupt, 'MemoryError': MemoryError}[s['exc']]('injected')
                st = Stepper(raise_at=s['at'], exc=exc)
                got = None
                try:
                    with st:
                        if s['make']:
                            t = plan['tabs'][s['t']]
                            interpolate_respfn(cct, resp[t['resp']], objs.num_b(t['nb']))
                        else:
                            got = ('ok', ops.norm(call(s)))
                except (KeyboardInterrupt, MemoryError):
                    out = 'interrupted'
                except Exception as e:
                    if not st.fired:
                        raise
                    out = type(e).__name__
                run.steps += st.n
                if st.fired:
                    run.fault('interrupt')
                    touched = True
                elif got is not None and judge(s, got, k):
                    return
            for i, t in enumerate(tabs):
                if zlib.crc32(t.tobytes()) != keep[i]:
                    run.violate('table-changed', 'step %d (%s): table %d was modified' % (k, a, i))
                    return
            run.event(k, a, out)
            seq.append((a, out))
        if plan.get('threads'):
            self.parallel(plan, run, call, want, spec)
            for i, t in enumerate(tabs):
                if zlib.crc32(t.tobytes()) != keep[i]:
                    run.violate('table-changed', 'threads: table %d was modified' % i)
                    return
        run.state = format(zlib.crc32(repr((seq, spec['nf'], bool(plan.get('threads')))).encode()), '08x')

    def parallel(self, plan, run, call, want, spec):
        th = plan['threads']
        got = [[None] * len(t) for t in th]
        wants = [[want(s) for s in t] for t in th]
        rng = Rng(plan['sseed'])

        def body(k):
            def fn(t):
                def work():
                    for m, s in enumerate(th[k]):
                        got[k][m] = ops.result_of2(lambda: call(s))
                sch.traced(work)
            return fn
        base = lazy_schedule(rng, len(th), plan['mean'])
        count = [0]

        def lazy(r, prev):
            count[0] += 1
            i, n = base(r, prev)
            return [i, n if count[0] < 3000 else n * 100]
        sch = Scheduler([body(k) for k in range(len(th))], plan.get('segs'), lazy)
        if plan.get('kill'):
            sch.threads[plan['kill'][0]].kill_at = plan['kill'][1]
            sch.threads[plan['kill'][0]].kill_exc = Killed()
        sch.run()
        run.explicit = dict(plan, segs=sch.used)
        run.steps += sch.total
        if sch.switches:
            run.fault('preemption', sch.switches)
            run.nontrivial = True
        for k in range(len(th)):
            if sch.threads[k].killed:
                run.fault('thread-killed')
            for m in range(len(th[k])):
                if got[k][m] is None:
                    if sch.threads[k].killed:
                        break
                    raise sch.threads[k].exc or RuntimeError('did not run')
                d = ops.same(wants[k][m], got[k][m])
                run.event('thread', k, m, got[k][m][0])
                if d:
                    run.violate('current-threads', 'thread %d call %d: direct / with the shared table: %s' % (k, m, d))
                    return

    @staticmethod
    def fl(s, spec):
        return ops.freq_list(s, spec)

    def wrong(self, m, t, spec, how, cct, resp, plan):
        """a table that does not cover what the call needs"""
        if how == 'npts':
            return np.concatenate((m, m[..., :1]), axis=-1) if spec['npts'] % 2 else (m[..., :-1].copy() if spec['npts'] > 1 else None)
        if how == 'ndim':
            return np.ascontiguousarray(m[0]) if spec['nf'] % 2 else m[None].copy()
        b = per_tone(t['nb'], spec['nf'])
        k = 0 if how == 'small' else len(b) - 1
        n = 2 * b[k] + 1
        if m.shape[k] < n:
            return None
        return np.ascontiguousarray(np.take(m, list(range(0, b[k])) + list(range(-b[k] + 1, 0)) if b[k] > 1 else [0], axis=k))

    def shrink(self, plan):
        st = plan['steps']
        n = len(st)
        if n > 3:
            yield dict(plan, steps=st[:n // 2])
            yield dict(plan, steps=st[n // 2:])
        for k in range(n):
            yield dict(plan, steps=st[:k] + st[k + 1:])
        if plan.get('threads'):
            yield {a: b for a, b in plan.items() if a not in ('threads', 'segs')}
            if len(plan['threads']) > 2:
                for k in range(len(plan['threads'])):
                    p = dict(plan, threads=plan['threads'][:k] + plan['threads'][k + 1:])
                    if p.get('segs'):
                        mp = {i: (i if i < k else i - 1) for i in range(len(plan['threads'])) if i != k}
                        p['segs'] = [[mp[i], s] for i, s in p['segs'] if i != k]
                    yield p
            if plan.get('segs'):
                from .threads import shrink_segments
                yield from shrink_segments(plan)
        if len(plan['tabs']) > 1:
            for k in range(len(plan['tabs'])):
                if all(s['t'] != k for s in st) and all(s['t'] != k for t in plan.get('threads', []) for s in t):
                    f = lambda s: dict(s, t=s['t'] - (s['t'] > k))
                    p = dict(plan, tabs=plan['tabs'][:k] + plan['tabs'][k + 1:], steps=[f(s) for s in st])
                    if plan.get('threads'):
                        p['threads'] = [[f(s) for s in t] for t in plan['threads']]
                    yield p
        for k, s in enumerate(st):
            if s.get('less'):
                yield dict(plan, steps=st[:k] + [dict(s, less=0)] + st[k + 1:])
            if s.get('fl') not in (None, 'dc'):
                yield dict(plan, steps=st[:k] + [dict(s, fl='dc')] + st[k + 1:])
        if any(t['lay'] != 'as-is' for t in plan['tabs']):
            yield dict(plan, tabs=[dict(t, lay='as-is') for t in plan['tabs']])
        for r in range(2):
            if plan['resp'][r]['kind'] != 'sim':
                rs = list(plan['resp'])
                rs[r] = dict(k='resp', kind='sim', n=20, q=20, s=0.05)
                yield dict(plan, resp=rs)
