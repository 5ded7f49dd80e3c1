"""C05 / C06: circuit files on a simulated disk."""
import copy
import math
import os

import numpy as np

from .. import boot, simfs
from ..core import World
from ..gen import circuit_values, nasty_float
from ..rng import Rng
from ..sched import Killed, Scheduler, Stepper, lazy_schedule
from ..simclock import SimClock

NAMES = ['a.txt', 'b.txt', 'embedding-circuit.txt', 'c d.txt', 'circuit_\u00b5.dat', 'sub/e.txt', 'F.txt']


def bits(x):
    """bit-exact value of everything the file must carry"""
    return tuple(np.asarray(x, dtype=complex if np.iscomplexobj(x) else float).ravel().view(np.uint64).tolist())


def state(c):
    return (int(c.num_f), int(c.num_p), bits(np.array(c.freq)[1:]), bits(np.array(c.vt, dtype=complex)[1:, 1:]),
            bits(np.array(c.zt, dtype=complex)[1:, 1:]))


def whole(c):
    return state(c) + (bits(np.array(c.freq)), bits(np.array(c.vt)), bits(np.array(c.zt)), bits(np.array(c.vb)), str(c.comment),
                       c.name, c.vgap, c.rn, c.fgap, c.igap, c.vb_npts,
                       c.freq.flags.writeable, c.vt.flags.writeable, c.zt.flags.writeable, c.vb.flags.writeable)


def show(st):
    nf, np_, f, v, z = st
    un = lambda t, dt: np.array(t, dtype=np.uint64).view(dt).tolist()
    return 'tones=%d harmonics=%d freq=%s vt=%s zt=%s' % (nf, np_, un(f, float), un(v, complex)[:6], un(z, complex)[:6])


def build(spec):
    from qmix.circuit import EmbeddingCircuit
    kw = dict(spec.get('kw', {}))
    c = EmbeddingCircuit(spec['nf'], spec['np'], **kw)
    fill(c, spec)
    for f, p, n in spec.get('names', []):
        c.set_name(n, f, p)
    if spec.get('locked'):
        c.lock()
    return c


def fill(c, spec):
    for f in range(spec['nf']):
        c.freq[f + 1] = spec['freq'][f]
        for p in range(spec['np']):
            c.vt[f + 1, p + 1] = complex(*spec['vt'][f][p])
            c.zt[f + 1, p + 1] = complex(*spec['zt'][f][p])


def gen_spec(rng, big=True):
    nf = rng.pick({1: 4, 2: 3, 3: 2, 4: 2})
    np_ = rng.pick({1: 5, 2: 4, 3: 3, 4: 1, 10: 1, 12: 1, 25: 0.5 if big else 0})
    s = dict(nf=nf, np=np_, **circuit_values(rng, nf, np_, plain=rng.chance(0.2)))
    if rng.chance(0.2):
        # purely imaginary values are written without parentheses: every prefix of the number is a number
        for w in ('vt', 'zt'):
            for row in s[w]:
                for x in row[-1:] if rng.chance(0.5) else row:
                    x[0] = 0.0
    if rng.chance(0.3):
        s['kw'] = rng.choice([dict(vgap=3e-3, rn=14.), dict(fgap=700e9), dict(name='x: y'), dict(vb_npts=7, vb_max=1),
                              dict(vgap=2.7e-3, fgap=650e9, rn=1)])
    if rng.chance(0.3):
        s['names'] = [[rng.randint(1, nf), rng.randint(1, np_), rng.choice(['Pump', 'LO\n', '   f=1, p=1', 'x = 3 V'])]]
    if rng.chance(0.2):
        s['locked'] = True
    return s


def mutate_spec(rng, s):
    """a circuit that differs in few places (makes mix-ups visible as near misses)"""
    t = copy.deepcopy(s)
    t.pop('locked', None)
    k = rng.random()
    if k < 0.5:
        for _ in range(rng.randint(1, 3)):
            f, p = rng.randrange(t['nf']), rng.randrange(t['np'])
            w = rng.choice(['freq', 'vt', 'zt'])
            if w == 'freq':
                t['freq'][f] = nasty_float(rng, False)
            else:
                t[w][f][p][rng.randrange(2)] = nasty_float(rng)
    elif k < 0.75 and t['nf'] < 4:
        u = gen_spec(rng, False)
        n = min(t['nf'], u['nf'])
        t = u if rng.chance(0.5) else t
        del n
    else:
        # drop or add harmonics
        m = rng.randint(1, t['np'] + 1)
        for w in ('vt', 'zt'):
            t[w] = [(row + [[nasty_float(rng), nasty_float(rng)]])[:m] for row in t[w]]
        t['np'] = m
    t.pop('names', None)
    return t


def gen_fault(rng, kinds):
    arg = round(rng.random(), 3)
    if rng.chance(0.25):
        arg = round(1 - rng.logu(1e-3, 0.3), 3)        # in the last values of the file
    return dict(kind=rng.pick(kinds), arg=arg)


class FilesFaultFree(World):
    id = 'files-restore'
    budget = {'quick': (1500, 200), 'thorough': (40000, 780)}
    rule = ('history of 1-3 simulated threads creating, editing, saving, overwriting and loading circuit files on a simulated disk '
            'with short reads/writes, slow operations and a random buffer size; non-trivial: at least one short/slow operation or '
            'thread switch happened')
    real = ['qmix.circuit', 'CPython io buffering', 'OS file system (scratch folder)']
    stubs = ['raw file layer (short reads/writes, latency)', 'clock', 'thread scheduler']
    assumptions = ['threads are preempted at QMix lines and at file operations', 'circuit arrays are float64/complex128']

    def gen(self, rng, tier):
        nth = rng.pick({1: 6, 2: 4, 3: 1.5})
        threads = []
        # threads saving into one folder, to different files of it
        shared = nth > 1 and rng.chance(0.7)
        pool = list(NAMES)
        rng.shuffle(pool)
        for t in range(nth):
            ops = []
            specs = [gen_spec(rng) for _ in range(rng.randint(1, 2))]
            names = rng.sample(pool[t::nth] if shared else NAMES, rng.randint(1, 2 if shared else 3))
            for k in range(rng.randint(3, 9 if nth == 1 else 6)):
                op = rng.pick({'save': 4, 'load': 3, 'new': 1, 'edit': 2, 'loadinto': 1, 'reassign': 0.5, 'lock': 0.5})
                o = dict(op=op, c=rng.randrange(3), file=rng.choice(names))
                if op == 'new':
                    o['spec'] = gen_spec(rng) if rng.chance(0.4) else mutate_spec(rng, rng.choice(specs))
                    specs.append(o['spec'])
                elif op in ('edit', 'reassign'):
                    o.update(f=rng.randint(0, 3), p=rng.randint(0, 24), w=rng.choice(['freq', 'vt', 'zt']),
                             x=[nasty_float(rng), nasty_float(rng)])
                ops.append(o)
            threads.append(dict(init=specs[0], ops=ops, paths=rng.choice(['str', 'str', 'path', 'abs'])))
        plan = dict(threads=threads, bufsize=rng.choice([16, 64, 512, 8192, 8192]), sched=rng.randrange(1 << 30),
                    mean=rng.choice([1, 3, 10, 40]), segments=None, shared=shared,
                    faults={})
        if rng.chance(0.7):
            rate = rng.choice([0.05, 0.3, 0.8])
            for n in range(1, 400):
                if rng.chance(rate):
                    plan['faults'][n] = gen_fault(rng, {'short': 4, 'slow': 1})
        return plan

    def execute(self, plan, run):
        clock = SimClock()
        root = boot.RUN_SCRATCH
        fs = simfs.SimFS(root, plan['faults'], plan['bufsize'], clock)
        fs.sched_points = True

        def worker(k, tp):
            def fn(t):
                base = os.path.join(root, 't%d' % (0 if plan.get('shared') else k))
                self.program(tp, base, run, k)
            return fn
        for k in range(len(plan['threads'])):
            os.makedirs(os.path.join(root, 't%d' % k, 'sub'))
        with fs:
            if len(plan['threads']) == 1:
                self.program(plan['threads'][0], os.path.join(root, 't0'), run, 0)
            else:
                fns = [worker(k, tp) for k, tp in enumerate(plan['threads'])]
                holder = {}

                def wrap(f):
                    return lambda t: holder['s'].traced(lambda: f(t))
                lazy = lazy_schedule(Rng(plan['sched']), len(fns), plan['mean'])
                s = holder['s'] = Scheduler([wrap(f) for f in fns], plan.get('segments'), lazy)
                s.run()
                run.steps += s.total
                run.explicit = dict(plan, segments=s.used)
                if s.switches:
                    run.fault('thread-switch', s.switches)
                run.state = str(hash(tuple(s.where)))
                for t in s.threads:
                    if t.exc is not None:
                        raise t.exc
                if s.deadlock:
                    run.violate('deadlock', 'threads saving and loading different files block each other')
        for kind, op, rel in fs.fired:
            run.fault('%s-%s' % (kind, op))
        run.event(fs.ops)
        run.sim_time = clock.total

    def program(self, tp, base, run, k):
        from pathlib import Path
        from qmix.circuit import read_circuit
        cs = [build(tp['init'])]
        files = {}
        for n, o in enumerate(tp['ops']):
            c = cs[o['c'] % len(cs)]
            path = os.path.join(base, o['file'])
            if tp['paths'] == 'path':
                path = Path(path)
            op = o['op']
            if op == 'new':
                cs = (cs + [build(o['spec'])])[-3:]
            elif op == 'lock':
                (c.lock if c.vt.flags.writeable else c.unlock)()
            elif op in ('edit', 'reassign'):
                f, p = 1 + o['f'] % c.num_f, 1 + o['p'] % c.num_p
                was = c.freq.flags.writeable
                c.unlock()
                if op == 'reassign':
                    setattr(c, o['w'], np.array(getattr(c, o['w']), order='F'))
                if o['w'] == 'freq':
                    c.freq[f] = o['x'][0]
                else:
                    getattr(c, o['w'])[f, p] = complex(*o['x'])
                if not was:
                    c.lock()
            elif op == 'save':
                before, st = whole(c), state(c)
                c.save_info(path)
                if whole(c) != before:
                    run.violate('save-changed-circuit', 'save_info changed the circuit: %s -> %s' % (before, whole(c)))
                files[o['file']] = st
                run.probe('save')
                run.event(k, n, 'save', o['file'], hash(st) & 0xffffffff)
            elif op in ('load', 'loadinto'):
                if o['file'] not in files:
                    continue
                got = read_circuit(path)
                st = state(got)
                run.event(k, n, 'load', o['file'], hash(st) & 0xffffffff)
                run.probe('load')
                if files[o['file']][1] >= 10:
                    run.probe('load-10-or-more-harmonics')
                if st != files[o['file']]:
                    run.violate('not-restored', 'thread %d step %d: file %s\n saved %s\n read  %s' % (
                        k, n, o['file'], show(files[o['file']]), show(st)))
                    return
                if op == 'loadinto':
                    cs = (cs + [got])[-3:]

    def shrink(self, plan):
        th = plan['threads']
        if len(th) > 1:
            for k in range(len(th)):
                yield dict(plan, threads=th[:k] + th[k + 1:], segments=None)
        yield dict(plan, faults={})
        fk = list(plan['faults'])
        for h in (fk[:len(fk) // 2], fk[len(fk) // 2:]):
            yield dict(plan, faults={a: plan['faults'][a] for a in h})
        if len(fk) < 12:
            for a in fk:
                yield dict(plan, faults={b: plan['faults'][b] for b in fk if b != a})
        if plan.get('segments'):
            sg = plan['segments']
            for k in range(len(sg)):
                yield dict(plan, segments=sg[:k] + sg[k + 1:])
        for k, t in enumerate(th):
            for j in range(len(t['ops'])):
                yield dict(plan, threads=th[:k] + [dict(t, ops=t['ops'][:j] + t['ops'][j + 1:])] + th[k + 1:])
            for s in simpler_specs(t['init']):
                yield dict(plan, threads=th[:k] + [dict(t, init=s)] + th[k + 1:])
            for j, o in enumerate(t['ops']):
                if 'spec' in o:
                    for s in simpler_specs(o['spec']):
                        yield dict(plan, threads=th[:k] + [dict(t, ops=t['ops'][:j] + [dict(o, spec=s)] + t['ops'][j + 1:])] + th[k + 1:])
        if plan['bufsize'] != 8192:
            yield dict(plan, bufsize=8192)


def simpler_specs(s):
    for key in ('kw', 'names', 'locked'):
        if key in s:
            yield {k: v for k, v in s.items() if k != key}
    if s['nf'] > 1:
        yield dict(s, nf=s['nf'] - 1, freq=s['freq'][:-1], vt=s['vt'][:-1], zt=s['zt'][:-1], names=[])
    if s['np'] > 1:
        for m in {1, s['np'] // 2, s['np'] - 1}:
            if 1 <= m < s['np']:
                yield dict(s, np=m, vt=[r[:m] for r in s['vt']], zt=[r[:m] for r in s['zt']], names=[])
    ones = dict(s, freq=[0.5] * s['nf'], vt=[[[0.25, 0.0]] * s['np'] for _ in range(s['nf'])],
                zt=[[[0.5, -0.25]] * s['np'] for _ in range(s['nf'])])
    if ones != s:
        for key in ('freq', 'vt', 'zt'):
            if s[key] != ones[key]:
                yield dict(s, **{key: ones[key]})


class FilesFaulty(World):
    id = 'files-crash'
    budget = {'quick': (2000, 200), 'thorough': (60000, 780)}
    rule = ('rounds of: save (possibly short-written) then a save hit by a fault (crash at/inside a file operation, power loss with '
            'unsynced data, ENOSPC/EIO/EACCES/EMFILE at open/write/close, interrupt inside save), restart, read, later good save, '
            'read; non-trivial: a fault fired')
    state_measure = 'distinct (fault kind, operation, bytes-on-disk class) outcomes after the fault'
    real = ['qmix.circuit', 'CPython io buffering', 'OS file system (scratch folder)']
    stubs = ['raw file layer, page cache / power-loss model', 'process death']
    assumptions = ['after power loss a file keeps a prefix of its unsynced operations (last one torn or zero-filled), renames are ordered']

    def gen(self, rng, tier):
        rounds = []
        prev = gen_spec(rng)
        for r in range(rng.randint(1, 3)):
            nxt = mutate_spec(rng, prev) if rng.chance(0.75) else gen_spec(rng)
            third = mutate_spec(rng, nxt) if rng.chance(0.5) else gen_spec(rng)
            mode = rng.pick({'crash': 4, 'power': 4, 'error': 4, 'interrupt': 2})
            kinds = {'crash': {'crash': 1, 'crash_mid': 3}, 'power': {'crash': 2, 'crash_mid': 2, 'none': 4},
                     'error': {'ENOSPC': 2, 'EIO': 2, 'EACCES': 1, 'EMFILE': 1, 'EROFS': .5, 'EDQUOT': .5, 'EPERM': .5, 'ESTALE': .3, 'ENOENT': .3, 'enospc_partial': 3, 'close_EIO': 2},
                     'interrupt': {'none': 1}}[mode]
            f = gen_fault(rng, kinds)
            rounds.append(dict(mode=mode, fault=f, at=round(rng.random(), 3), old=prev if rng.chance(0.8) else None,
                               new=nxt, later=third, torn=rng.randrange(1 << 30), name=rng.choice(NAMES),
                               synced=rng.chance(0.7), readfault=gen_fault(rng, {'short': 3, 'EIO': 1, 'none': 4})))
            prev = third
        return dict(rounds=rounds, bufsize=rng.choice([16, 64, 256, 512, 4096, 8192]))

    def execute(self, plan, run):
        from qmix.circuit import read_circuit
        root = boot.RUN_SCRATCH
        os.mkdir(os.path.join(root, 'sub'))
        outcomes = []
        for k, r in enumerate(plan['rounds']):
            path = os.path.join(root, r['name'])
            if os.path.exists(path):
                os.remove(path)
            old = build(r['old']) if r['old'] else None
            new, later = build(r['new']), build(r['later'])
            fs = simfs.SimFS(root, {}, plan['bufsize'])
            with fs:
                # how many operations does an undisturbed save need?  (dry run on another file)
                dry = os.path.join(root, 'dry.txt')
                n0 = fs.n
                st = Stepper()
                with st:
                    new.save_info(dry)
                n_ops, n_steps = fs.n - n0, st.n
                fs.sync()
                if old is not None:
                    old.save_info(path)
                if r['synced']:
                    fs.sync()
                target = fs.n + 1 + int(r['at'] * n_ops)
                if r['fault']['kind'] != 'none':
                    fs.faults = {target: r['fault']}
                fs.fired.clear()
                proc = fs.proc
                err = None
                try:
                    if r['mode'] == 'interrupt':
                        exc = KeyboardInterrupt('simulated') if r['torn'] & 1 else MemoryError('simulated')
                        with Stepper(raise_at=1 + int(r['at'] * n_steps), exc=exc) as st:
                            new.save_info(path)
                    else:
                        new.save_info(path)
                except BaseException as e:
                    err = e
                if r['mode'] == 'interrupt' and st.fired:
                    run.fault('interrupt-in-save')
                for kind, op, rel in fs.fired:
                    run.fault('%s@%s' % (kind, op))
                died = proc.dead
                fs.faults = {}
                if not died and err is None and r['mode'] != 'power':
                    # reported success: must be readable now
                    self.expect(run, k, path, [state(new)], None, 'success-not-readable', r, read_circuit)
                if r['mode'] == 'power':
                    what = fs.power_loss(Rng('torn', r['torn']))
                    run.fault('power-loss')
                    run.event(k, 'power', what)
                # restart
                fs.proc = simfs.Proc('p1')
                rf = r['readfault']
                if rf['kind'] != 'none':
                    fs.faults = {fs.n + 2: rf}
                    fs.fired.clear()
                allowed = [state(new)] + ([state(old)] if old is not None else [])
                got = self.expect(run, k, path, allowed, 'raise-ok', 'silently-wrong', r, read_circuit)
                for kind, op, rel in fs.fired:
                    run.fault('%s@%s' % (kind, op))
                fs.faults = {}
                outcomes.append((r['mode'], r['fault']['kind'], type(err).__name__, got))
                run.event(k, r['mode'], r['fault'], type(err).__name__, got)
                # a later successful save makes the file good again
                later.save_info(path)
                self.expect(run, k, path, [state(later)], None, 'not-recovered', r, read_circuit)
        run.state = str(outcomes)

    def expect(self, run, k, path, allowed, may_raise, sig, r, read):
        try:
            st = state(read(path))
        except Exception as e:
            if may_raise:
                run.probe('rejected')
                return 'raises'
            run.violate(sig, 'round %d (%s, fault %s): reading raises %r' % (k, r['mode'], r['fault'], e))
            return 'raises'
        for i, a in enumerate(allowed):
            if st == a:
                run.probe('read-%s' % ('new' if i == 0 else 'old'))
                return 'new' if i == 0 else 'old'
        run.violate(sig, 'round %d (mode %s, fault %s): file reads as\n %s\n expected one of\n %s' % (
            k, r['mode'], r['fault'], show(st), '\n '.join(show(a) for a in allowed)))
        return 'wrong'

    def shrink(self, plan):
        rs = plan['rounds']
        if len(rs) > 1:
            for k in range(len(rs)):
                yield dict(plan, rounds=rs[:k] + rs[k + 1:])
        for k, r in enumerate(rs):
            def sub(**kw):
                return dict(plan, rounds=rs[:k] + [dict(r, **kw)] + rs[k + 1:])
            if r['readfault']['kind'] != 'none':
                yield sub(readfault=dict(kind='none', arg=0))
            if r['old'] is not None:
                yield sub(old=None)
            for w in ('old', 'new', 'later'):
                if r[w]:
                    for s in simpler_specs(r[w]):
                        yield sub(**{w: s})
        if plan['bufsize'] != 8192:
            yield dict(plan, bufsize=8192)
