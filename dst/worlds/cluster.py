"""C16: a sweep farmed out by a coordinator to workers over a faulty network."""
import copy
import heapq
import pickle
import zlib

import numpy as np

from .. import core, ops
from ..core import World
from ..rng import Rng
from ..sched import Killed, Stepper

CALC = ('qt', 'interp', 'hb', 'check', 'respeval', 'power', 'cctinfo', 'mkresp', 'dciv', 'iv', 'dcif', 'ifd')
HEAVY = CALC + ('dcdata', 'pumped')
TIMEOUT, STOP, BOUND = 60., 400., 3000.


class NotSerialisable(Exception):
    pass


def touch(o, t):
    """one thing the owner does to an object between two uses (its own changes, not QMix calculations)"""
    k = t[0]
    if k == 'elem':
        getattr(o, t[1])[t[2], t[3]] = complex(*t[4])
    elif k == 'array':
        setattr(o, t[1], getattr(o, t[1]) * t[2])
    elif k == 'vb':
        o.vb[...] = o.vb + t[1]
    elif k == 'vb1':
        o.vb[t[1]] += t[2]
    elif k == 'freq':
        o.freq[t[1]] = t[2]
    elif k == 'call':
        try:
            with np.errstate(all='ignore'):
                getattr(o, t[1])(*t[2])
        except (AssertionError, ValueError, TypeError):
            pass
    elif k == 'attr':
        setattr(o, t[1], t[2])
    elif k == 'fill':
        o[...] = o * t[1]


def history(payload):
    """the same owner's actions and the task, in one pristine process, nothing ever copied"""
    P = payload['P']
    pool = {n: ops.build(P[n]) for n in payload['names']}
    for n, t in payload['touches']:
        if n in pool:
            touch(pool[n], t)
    return ops.result_of(payload['op'], pool.__getitem__, P)


def remote(payload):
    """a worker in a process of its own: unpickle, calculate, pickle"""
    try:
        pool = pickle.loads(payload['blob'])
    except Exception as e:
        return ('unpickle', '%s: %s' % (type(e).__name__, e))
    return answer(payload['op'], pool, payload['P'], payload['proto'])


def answer(op, pool, P, proto):
    try:
        r = ('ok', ops.perform(op, pool.__getitem__, P))
    except Exception as e:
        r = ('exc', type(e).__name__)
    if proto == 'deepcopy':
        return ('result', copy.deepcopy(r))
    try:
        return ('result', pickle.dumps(r, proto))
    except Exception as e:
        return ('unpicklable', '%s: %s' % (type(e).__name__, e))


core.SOLO_HANDLERS['cluster_history'] = history
core.SOLO_HANDLERS['cluster_remote'] = remote


def scribble(x, depth=0):
    """the owner of a copy may do with its data what it likes"""
    if isinstance(x, np.ndarray):
        if x.flags.writeable and x.dtype.kind in 'fc':
            x[...] = 777.
    elif isinstance(x, dict) and depth < 3:
        for v in x.values():
            scribble(v, depth + 1)
        x['scribbled'] = 1
    elif isinstance(x, list) and depth < 3:
        for v in x:
            scribble(v, depth + 1)
        x.append('scribbled')
    elif hasattr(x, '__dict__') and type(x).__module__.startswith('qmix') and depth < 2:
        for k, v in vars(x).items():
            if not k.startswith('_'):
                scribble(v, depth + 1)


def contents(x, depth=0):
    """what a copy has to share with its original (a lock on the original's arrays is not copied by pickle)"""
    if isinstance(x, np.ndarray):
        return ('arr', x.dtype.str, x.shape, x.tobytes()) if x.dtype != object else ('obj', x.shape, [contents(y, depth + 1) for y in x.ravel()])
    if x is None or isinstance(x, (bool, int, float, complex, str, bytes, np.generic)):
        return (type(x).__name__, repr(x))
    if depth > 7:
        return '...'
    if isinstance(x, dict):
        return ('dict', sorted((repr(k), contents(v, depth + 1)) for k, v in x.items()))
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, [contents(y, depth + 1) for y in x])
    if type(x).__module__.startswith('qmix'):
        return (type(x).__name__, [(k, contents(v, depth + 1)) for k, v in ops.public(x)])
    return type(x).__name__


class Cluster(World):
    id = 'cluster'
    needs_solo = True
    run_timeout = 240
    budget = {'quick': (900, 150), 'thorough': (40000, 780)}
    rule = ('a coordinator ships tasks (operation + circuits, response functions, measured data) to 1-4 simulated workers; messages are '
            'pickled (protocols 0-5) or deep-copied and are lost, duplicated, delayed, reordered or cut off by partitions; workers crash '
            'while idle or at any QMix statement and restart empty; the owner edits its originals after shipping; every result is compared '
            'with the same history computed serially without copying; non-trivial: at least one fault or owner edit')
    state_measure = 'distinct sequences of (event, worker, task) of the cluster'
    real = ['qmix (all operations)', 'pickle, copy.deepcopy', 'some workers: separate pristine processes', 'numba kernels']
    stubs = ['coordinator, network, worker processes (simulated time)', 'terminal', 'analytic response function (some runs)']
    assumptions = ['the coordinator retries until a result arrives; messages arrive whole or not at all']

    # ------------------------------------------------------------------ plan
    def gen(self, rng, tier):
        heavy = rng.chance(0.15)
        P, nb = ops.gen_pool(rng, heavy, cost=4e3)
        resident = rng.chance(0.35)
        only = rng.pick({CALC: 4, ('hb', 'qt'): 3, ('qt', 'interp', 'respeval', 'mkresp'): 2, ('dciv', 'iv', 'dcif', 'ifd'): 1,
                         ('power', 'cctinfo', 'hb'): 1, HEAVY: 0}) if not heavy else rng.choice([('pumped', 'dcdata'), HEAVY, ('pumped',)])
        n = rng.randint(1, 6) if not heavy else rng.randint(1, 3)
        tasks = []
        for k in range(n):
            op = ops.gen_op(rng, P, nb, heavy, only=only)
            tasks.append(dict(op=op, touches=self.gen_touches(rng, P, op, resident)))
        nw = rng.randint(1, 4)
        workers = [dict(kind=rng.pick({'local': 6, 'remote': 3}), speed=rng.choice([1, 1, 5, 40]), scribble=rng.chance(0.5)) for _ in range(nw)]
        level = rng.pick({0: 1, 1: 3, 2: 2})
        net = {}
        for m in range(40):
            d = {}
            if level and rng.chance(0.15 * level):
                d['loss'] = 1
            if level and rng.chance(0.12 * level):
                d['dup'] = rng.randint(1, 2)
            if rng.chance(0.3):
                d['delay'] = round(rng.logu(1, 150), 1)
            if d:
                net[str(m)] = d
        crash = []
        for _ in range(rng.pick({0: 3, 1: 3, 2: 2, 3: 1})):
            crash.append([rng.randrange(nw), rng.randint(0, 3), int(rng.logu(1, 20000)) if rng.chance(.8) else 0, round(rng.uniform(1, 120), 1)])
        part = []
        if rng.chance(0.2 * level):
            a = round(rng.uniform(0, 200), 1)
            part.append([rng.randrange(nw), a, round(a + rng.uniform(5, 150), 1)])
        pre = []
        for _ in range(rng.randint(0, 2)):
            pre.append([ops.gen_op(rng, P, nb, heavy, only=only), int(rng.logu(1, 5000)) if rng.chance(.4) else None])
        return dict(P=P, tasks=tasks, workers=workers, net=net, crash=crash, part=part, pre=pre, resident=resident,
                    proto=rng.pick({0: 1, 1: 1, 2: 1, 3: 1, 4: 2, 5: 3, 'deepcopy': 5}), hops=rng.pick({0: 5, 1: 2, 2: 1}))

    def gen_touches(self, rng, P, op, resident):
        out = []
        names = [n for n in ops.names_in(op)]
        if not names:
            return out
        for _ in range(rng.pick({0: 3, 1: 3, 2: 2, 3: 1})):
            n = rng.choice(names)
            s = P[n]
            if s['k'] == 'cct':
                f, p = rng.randint(1, s['nf']), rng.randint(1, s['np'])
                k = rng.pick({'vt': 4, 'zt': 3, 'vb': 1.5, 'freq': 1.5, 'call': 4, 'array': 1})
                if k in ('vt', 'zt'):
                    t = ['elem', k, f, p, [round(rng.uniform(.05, .6), 3), round(rng.uniform(-.3, .3), 3)]]
                elif k == 'vb':
                    t = ['vb', round(rng.uniform(-.1, .1), 3)] if rng.chance(.4) else ['vb1', rng.randrange(s['npts']), round(rng.uniform(-.1, .1), 3)]
                elif k == 'freq':
                    t = ['freq', f, round(rng.uniform(.1, .6), 3)]
                elif k == 'array':
                    t = ['array', rng.choice(['vt', 'zt']), round(rng.uniform(.5, 1.5), 2)]
                else:
                    t = ['call'] + rng.choice([['lock', []], ['unlock', []], ['set_name', [rng.choice(['LO', 'second harmonic of the local oscillator (\u00b5V)']), f, p]], ['print_info', []],
                                               ['set_alpha', [round(rng.uniform(.1, 1), 2), f, p]],
                                               ['set_available_power', [round(rng.uniform(5, 50), 1), f, p, 'nW']],
                                               ['available_power', [f, p, 'nW']], ['initialize_vj', []]])
                if s.get('locked') and t[0] != 'call':
                    t = ['call', 'unlock', []]
            elif s['k'] == 'arr' and s.get('style') in ('noise', 'smooth'):
                t = ['fill', round(rng.uniform(.5, 1.5), 2)]
            elif s['k'] == 'vj':
                t = ['fill', round(rng.uniform(.5, 1.2), 2)]
            elif s['k'] == 'resp' and s['kind'] != 'sim':
                t = ['call'] + rng.choice([['idc', [0.5]], ['__call__', [np.float64(.3).item()]], ['ikk', [0.2]]])
            elif s['k'] == 'dcdata':
                t = ['attr', 'comment', 'edited %d' % rng.randrange(9)]
            elif s['k'] in ('iv', 'if'):
                t = ['fill', 1.0]
            else:
                continue
            out.append([n, t])
        return out

    # --------------------------------------------------------------- execute
    def execute(self, plan, run):
        P, tasks, proto = plan['P'], plan['tasks'], plan['proto']
        used = sorted({n for t in tasks for n in ops.names_in(t['op'])})
        pool = {n: ops.build(P[n]) for n in used}
        done_touches = []
        # life of the objects before they are shipped
        for op, at in plan['pre']:
            if not all(n in pool for n in ops.names_in(op)):
                continue
            try:
                if at:
                    with Stepper(at, KeyboardInterrupt()) as st:
                        ops.perform(op, pool.__getitem__, P)
                    if st.fired:
                        run.fault('interrupted-before-shipping')
                else:
                    ops.perform(op, pool.__getitem__, P)
                    run.probe('used-before-shipping')
            except KeyboardInterrupt:
                run.fault('interrupted-before-shipping')
            except Exception:
                pass
        # the coordinator submits the tasks: edit the originals, take a snapshot, go on
        snaps, want, stock = [], [], []
        self.stock = stock
        for k, t in enumerate(tasks):
            for n, x in t['touches']:
                if n in pool:
                    try:
                        touch(pool[n], x)
                    except ValueError:
                        if not self.locked(pool[n]):
                            raise
                    else:
                        done_touches.append([n, x])
                    run.fault('owner-edit')
            names = sorted(set(ops.names_in(t['op'])))
            want.append(core.solo('cluster_history', dict(P={n: P[n] for n in names}, names=names,
                                                          touches=[x for x in done_touches if x[0] in names], op=t['op'])))
            try:
                b = self.pack({n: pool[n] for n in names}, proto)
                for _ in range(plan['hops']):
                    b = self.pack(self.unpack(b, proto), proto)
                    run.probe('relayed')
                snaps.append(b)
                stock.append({n: contents(pool[n]) for n in names})
            except Exception as e:
                run.violate('not-serialisable', 'task %d (%s): %s of %s: %s: %s' % (
                    k, t['op']['op'], 'deepcopy' if proto == 'deepcopy' else 'pickle', names, type(e).__name__, e))
                return
        fp = {n: ops.fingerprint(pool[n]) for n in used}
        self.simulate(plan, run, snaps, want)
        for n in used:
            if not run.viol and ops.fingerprint(pool[n]) != fp[n]:
                run.violate('original-changed', 'the original of %s (%s) changed after it was shipped%s' % (
                    n, P[n]['k'], ops.fp_diff(fp[n], ops.fingerprint(pool[n]))))
                return

    def locked(self, o):
        return any(isinstance(v, np.ndarray) and not v.flags.writeable for v in vars(o).values()) if hasattr(o, '__dict__') else False

    def pack(self, objs, proto):
        if proto == 'deepcopy':
            return copy.deepcopy(objs)
        return pickle.dumps(objs, proto)

    def unpack(self, blob, proto):
        if proto == 'deepcopy':
            return copy.deepcopy(blob)
        return pickle.loads(blob)

    def simulate(self, plan, run, snaps, want):
        tasks, proto, P = plan['tasks'], plan['proto'], plan['P']
        W = plan['workers']
        heap, seq, now = [], [0], [0.]
        up = [True] * len(W)
        nexec = [0] * len(W)
        busy = [0.] * len(W)
        epoch = [0] * len(W)
        resident = [{} for _ in W]
        crashes = {(w, k): (step, down) for w, k, step, down in plan['crash'] if w < len(W)}
        got = {}
        nmsg = [0]
        first = {}
        seqlog = []

        def at(dt, what):
            seq[0] += 1
            heapq.heappush(heap, (now[0] + dt, seq[0], what))

        def send(w, what):
            """one message between the coordinator and worker w"""
            k = nmsg[0]
            nmsg[0] += 1
            d = plan['net'].get(str(k), {}) if now[0] < STOP else {}
            for a, b, c in ((p[0], p[1], p[2]) for p in plan['part']):
                if a == w and b <= now[0] < c:
                    run.fault('partition-loss')
                    return
            if d.get('loss'):
                run.fault('message-loss')
                return
            if d.get('delay'):
                run.fault('message-delay')
            at(d.get('delay', 1.), what)
            for m in range(d.get('dup', 0)):
                run.fault('message-duplicate')
                at(d.get('delay', 1.) + 1.5 + 20 * m, what)

        def submit(k, tries):
            w = (k + tries) % len(W)
            send(w, ('task', w, k))
            at(TIMEOUT, ('timer', k, tries))
        for k in range(len(tasks)):
            submit(k, 0)
        while heap and len(got) < len(tasks):
            t, _, ev = heapq.heappop(heap)
            now[0] = t
            if t > BOUND:
                break
            kind = ev[0]
            seqlog.append(ev[:3])
            if kind == 'timer':
                _, k, tries = ev
                if k not in got:
                    run.probe('retry')
                    submit(k, tries + 1)
            elif kind == 'up':
                up[ev[1]] = True
                run.fault('worker-restart')
            elif kind == 'task':
                _, w, k = ev
                if not up[w]:
                    continue
                if busy[w] > now[0]:
                    at(busy[w] - now[0], ev)
                    continue
                nth = nexec[w]
                nexec[w] += 1
                step, down = crashes.get((w, nth), (None, None))
                if now[0] >= STOP:
                    step = None
                if step == 0:
                    run.fault('worker-crash-idle')
                    up[w] = False
                    resident[w] = {}
                    at(down, ('up', w, k))
                    continue
                res = self.work(plan, run, w, k, snaps[k], step, resident[w])
                if run.viol:
                    return
                if res is None:
                    run.fault('worker-crash-calculating')
                    up[w] = False
                    resident[w] = {}
                    at(down, ('up', w, k))
                    continue
                busy[w] = now[0] + W[w]['speed']
                at(W[w]['speed'], ('finish', w, k, res, epoch[w]))
            elif kind == 'finish':
                _, w, k, res, e = ev
                send(w, ('result', w, k, res))
            elif kind == 'result':
                _, w, k, res = ev
                try:
                    r = copy.deepcopy(res[1]) if proto == 'deepcopy' else pickle.loads(res[1])
                except Exception as e:
                    run.violate('not-serialisable', 'result of task %d (%s) cannot be unpickled: %s: %s' % (k, tasks[k]['op']['op'], type(e).__name__, e))
                    return
                g = (r[0], ops.norm(r[1])) if r[0] == 'ok' else r
                run.event('result', k, w, g[0], round(now[0], 1))
                run.probe('op-' + tasks[k]['op']['op'])
                d = ops.same(want[k], g)
                if d:
                    run.violate('result-' + tasks[k]['op']['op'], 'task %d (%s) on worker %d (%s, %s, try of %.0f): serial / distributed %s' % (
                        k, tasks[k]['op']['op'], w, W[w]['kind'], 'protocol %s' % proto, now[0], d))
                    return
                if k in got:
                    run.probe('duplicate-result')
                got[k] = g
        run.sim_time = now[0]
        run.state = format(zlib.crc32(repr(seqlog).encode()), '08x')
        if len(got) < len(tasks):
            run.violate('no-progress', 'tasks %s not finished %g simulated seconds after the last fault' % (
                sorted(set(range(len(tasks))) - set(got)), BOUND - STOP))

    def work(self, plan, run, w, k, blob, step, resident):
        """worker w executes task k; None if it crashes"""
        task, proto, W = plan['tasks'][k], plan['proto'], plan['workers'][w]
        P = {n: plan['P'][n] for n in sorted(set(ops.names_in(task['op'])))}
        if W['kind'] == 'remote' and step is None:
            try:
                b = blob if proto != 'deepcopy' else pickle.dumps(blob)
            except Exception as e:
                run.violate('not-serialisable', 'task %d (%s): %s: %s' % (k, task['op']['op'], type(e).__name__, e))
                return None
            pr = proto if proto != 'deepcopy' else 5
            r = core.solo('cluster_remote', dict(blob=b, op=task['op'], P=P, proto=pr), memo=False)
            run.probe('remote-execution')
            if r[0] != 'result':
                run.violate('not-serialisable', 'task %d (%s) in a worker process: %s %s' % (k, task['op']['op'], r[0], r[1]))
                return None
            return r if proto != 'deepcopy' else ('result', pickle.loads(r[1]))
        try:
            if plan['resident'] and k in resident:
                pool = resident[k]           # kept from an earlier delivery of the same task
                run.probe('resident-copy-used-again')
            else:
                pool = self.unpack(blob, proto)
                for n in sorted(pool):
                    c = contents(pool[n])
                    if c != self.stock[k][n]:
                        run.violate('copy-differs', 'task %d: the %s of worker %d (protocol %s) is not what was shipped: %s' % (
                            k, P[n]['k'], w, proto, ops.fp_diff(self.stock[k][n], c, n)))
                        return None
                if plan['resident']:
                    resident[k] = pool
        except Exception as e:
            run.violate('not-serialisable', 'task %d (%s): %s: %s' % (k, task['op']['op'], type(e).__name__, e))
            return None
        try:
            if step is not None:
                with Stepper(step, Killed()) as st:
                    r = answer(task['op'], pool, P, proto)
                if st.fired:
                    return None
            else:
                r = answer(task['op'], pool, P, proto)
        except Killed:
            return None
        if r[0] != 'result':
            run.violate('not-serialisable', 'result of task %d (%s): %s' % (k, task['op']['op'], r[1]))
            return None
        if W['scribble'] and not plan['resident']:
            scribble(pool)
            run.fault('worker-scribbles-on-its-copy')
        return r

    # ---------------------------------------------------------------- shrink
    def shrink(self, plan):
        t = plan['tasks']
        if len(t) > 1:
            for k in range(len(t)):
                yield dict(plan, tasks=t[:k] + t[k + 1:])
        for key in ('crash', 'part', 'pre'):
            if plan[key]:
                yield dict(plan, **{key: []})
                for k in range(len(plan[key])):
                    yield dict(plan, **{key: plan[key][:k] + plan[key][k + 1:]})
        if plan['net']:
            yield dict(plan, net={})
            for k in plan['net']:
                yield dict(plan, net={a: b for a, b in plan['net'].items() if a != k})
        for k, x in enumerate(t):
            for m in range(len(x['touches'])):
                yield dict(plan, tasks=t[:k] + [dict(x, touches=x['touches'][:m] + x['touches'][m + 1:])] + t[k + 1:])
        if len(plan['workers']) > 1:
            yield dict(plan, workers=plan['workers'][:1])
            yield dict(plan, workers=plan['workers'][1:2])
        for k, w in enumerate(plan['workers']):
            for key, v in (('speed', 1), ('scribble', False)):
                if w[key] != v:
                    yield dict(plan, workers=plan['workers'][:k] + [dict(w, **{key: v})] + plan['workers'][k + 1:])
        if plan['resident']:
            yield dict(plan, resident=False)
        if plan['hops']:
            yield dict(plan, hops=0)
        used = {n for x in t for n in ops.names_in(x['op'])}
        if set(plan['P']) - used:
            yield dict(plan, P={n: s for n, s in plan['P'].items() if n in used})
