"""C02 / C03: one long-lived session - calls, interrupted calls, failing callbacks and terminals, edits by the caller."""
import os
import pickle
import random
import signal
import sys
import warnings
import zlib

import numpy as np

from .. import core, objs, ops
from ..core import World
from ..objs import RespFailure
from ..sched import Stepper

EXC = {'KeyboardInterrupt': KeyboardInterrupt, 'MemoryError': MemoryError, 'Alarm': TimeoutError}


class FailingTerminal(core.Sink):
    def __init__(self, at):
        self.at, self.n, self.hit = at, 0, False

    def write(self, s):
        self.n += 1
        if self.n >= self.at:
            self.hit = True
            raise BrokenPipeError(32, 'Broken pipe')
        return len(s)


class FailingResp:
    """wraps the caller's response function; fails at the k-th call"""

    def __init__(self, r, at, kind):
        self._r, self._at, self._n, self._kind, self._hit = r, at, 0, kind, False

    def _tick(self):
        self._n += 1
        if self._n >= self._at:
            self._hit = True
            raise RespFailure('callback') if self._kind == 'raise' else KeyboardInterrupt('callback')

    def __call__(self, v):
        self._tick()
        return self._r(v)

    def __getattr__(self, k):
        f = getattr(self._r, k)
        if not callable(f):
            return f

        def g(*a, **kw):
            self._tick()
            return f(*a, **kw)
        return g


def build_edited(spec, edits):
    o = ops.build(spec)
    for e in edits:
        apply_edit(o, e)
    return o


def apply_edit(o, e):
    """what a caller does to an object of his own, in place"""
    k = e['e']
    if isinstance(o, np.ndarray):
        if not o.flags.writeable:
            return
        if k == 'scale':
            o *= e['x']
        elif k == 'shift':
            o += e['x']
        elif k == 'one':
            o.ravel(order='K')[0:1].view()
            o.reshape(-1)[e['i'] % o.size] = e['x'] if o.flags.c_contiguous else o.reshape(-1)[e['i'] % o.size]
            if not o.flags.c_contiguous:
                o[(e['i'] % o.shape[0],)] = e['x']
        elif k == 'nan':
            o[(e['i'] % o.shape[0],)] = np.nan
        return
    from qmix.circuit import EmbeddingCircuit
    if isinstance(o, EmbeddingCircuit):
        f, p = 1 + e['f'] % o.num_f, 1 + e['p'] % o.num_p
        try:
            if k == 'freq':
                o.freq[f] += e['x']
            elif k == 'vt':
                o.vt[f, p] += e['x']
            elif k == 'zt':
                o.zt[f, p] *= (1 + e['x'])
            elif k == 'vb':
                o.vb += e['x']
            elif k == 'name':
                o.set_name('edited', f, p)
        except ValueError:
            pass        # locked


def gen_edit(rng, P):
    n = rng.choice([k for k in P if P[k]['k'] in ('arr', 'vj', 'cct', 'iv', 'if')])
    if P[n]['k'] == 'cct':
        return dict(t='edit', n=n, e=rng.choice(['freq', 'vt', 'zt', 'vb', 'name']), f=rng.randrange(4), p=rng.randrange(3),
                    x=float('%.3g' % rng.logu(1e-5, 0.2)))
    if P[n]['k'] in ('iv', 'if'):
        return dict(t='edit', n=n, e=rng.choice(['one', 'nan']), i=rng.randrange(400), x=0.01)
    return dict(t='edit', n=n, e=rng.choice(['scale', 'shift', 'one']), i=rng.randrange(60), x=rng.choice([round(rng.uniform(0.8, 1.3), 3), 1.0001, 0.999]))


def arrays_of(x, depth=0, seen=None):
    """arrays reachable from a result"""
    seen = set() if seen is None else seen
    if id(x) in seen or depth > 5:
        return []
    seen.add(id(x))
    if isinstance(x, np.ndarray):
        return [x]
    if isinstance(x, (list, tuple)):
        return [z for y in x for z in arrays_of(y, depth + 1, seen)]
    if isinstance(x, dict):
        return [z for k in x for z in arrays_of(x[k], depth + 1, seen)]
    if hasattr(x, '__dict__') and not callable(getattr(x, '__self__', None)):
        return [z for k, v in ops.public(x) for z in arrays_of(v, depth + 1, seen)]
    return []


def solo_session_op(payload):
    import matplotlib.figure
    matplotlib.figure.Figure.savefig = lambda self, fname, **kw: None
    cache = {}
    for n, (kind, v) in payload['objs'].items():
        if kind == 'val':
            cache[n] = pickle.loads(v)
        else:
            cache[n] = build_edited(v[0], v[1])
    if payload.get('count'):
        with Stepper() as st:
            try:
                ops.perform(payload['op'], cache.__getitem__, None)
            except Exception:
                pass
        return st.n
    return ops.result_of(payload['op'], cache.__getitem__, None)


core.SOLO_HANDLERS['session_op'] = solo_session_op


def global_state():
    """process-wide state a call must leave alone"""
    import matplotlib
    from qmix.exp.parameters import params
    import qmix.respfn as R
    st = np.random.get_state()
    return [('NumPy error handling', sorted(np.geterr().items())), ('warning filters', repr(warnings.filters)),
            ('default parameters', sorted((k, repr(v)) for k, v in params.items())),
            ('working directory', os.getcwd()), ('random state', hash(random.getstate())),
            ('NumPy random state', zlib.crc32(st[1].tobytes()) + st[2]),
            ('plot defaults', zlib.crc32(repr(sorted((k, str(v)) for k, v in matplotlib.rcParams.items() if not k.startswith('backend'))).encode())),
            ('print options', repr(sorted(np.get_printoptions().items(), key=str))),
            ('response function sampling', zlib.crc32(np.asarray(R.VINIT).tobytes()) if hasattr(R, 'VINIT') else 0),
            ('signal handlers', [str(signal.getsignal(s)) for s in (signal.SIGINT, signal.SIGALRM, signal.SIGTERM)]),
            ('recursion limit', sys.getrecursionlimit()),
            ('environment', hash(tuple(sorted(os.environ.items()))))]


class Session(World):
    run_timeout = 240
    results = False
    args = False

    def gen(self, rng, tier):
        heavy = rng.chance(0.12 if self.args else 0.08)
        P, nb = ops.gen_pool(rng, heavy, cost=1.5e4)
        n = rng.randint(4, 14) if not heavy else rng.randint(3, 7)
        steps = []
        only = None
        if rng.chance(0.5):
            only = rng.choice([('hb', 'qt', 'interp', 'check'), ('hb',), ('model', 'mkresp', 'respeval'), ('dciv', 'iv', 'dcif', 'ifd'),
                               ('math1', 'math2', 'clean', 'ifresp'), ('newcct', 'power', 'cctinfo', 'hb'), ('ifd', 'dcif', 'ifresp'),
                               ('qt', 'interp')])
        last = None
        while len(steps) < n:
            if last is not None and rng.chance(0.3 if self.results else 0.1):
                # caller edits between calls
                k = rng.pick({'edit': 4, 'edit_result': 3, 'recreate': 2, 'swap': 1})
                if k == 'edit':
                    e = gen_edit(rng, P)
                    if rng.chance(0.7):
                        mine = [x for x in ops.names_in(last) if P[x]['k'] in ('cct', 'arr', 'vj', 'iv', 'if')]
                        if mine:
                            x = rng.choice(mine)
                            e = gen_edit(rng, {x: P[x]})
                    steps.append(e)
                elif k == 'edit_result':
                    steps.append(dict(t='edit_result', x=rng.choice([0.0, -3.7, 'nan'])))
                elif k == 'recreate':
                    # the caller drops an object and makes a new one (the new one may reuse the address of the old one)
                    x = rng.choice(ops.names_in(last) or sorted(P))
                    steps.append(dict(t='recreate', n=x, same=rng.chance(0.4), seed=rng.randrange(1 << 30)))
                else:
                    a, b = rng.sample([x for x in sorted(P) if P[x]['k'] == 'resp'], 2)
                    steps.append(dict(t='swap', a=a, b=b))
                if rng.chance(0.6):
                    steps.append(dict(t='op', op=last))
                continue
            op = ops.gen_op(rng, P, nb, heavy, only=only, plots=True) if last is None or rng.chance(0.75) else last
            s = dict(t='op', op=op)
            if rng.chance(0.45 if self.args else 0.35):
                s['dis'] = []
                for _ in range(rng.randint(1, 3) if self.args else 1):
                    k = rng.pick({'step': 5, 'resp': 2, 'term': 1})
                    s['dis'].append([k, round(rng.random(), 5) if k == 'step' else rng.randint(1, 6),
                                     rng.choice(sorted(EXC)) if k == 'step' else rng.choice(['raise', 'interrupt'])])
                s['then'] = rng.chance(0.7)
            steps.append(s)
            last = op
        return dict(P=P, steps=steps)

    def execute(self, plan, run):
        import matplotlib.figure
        real_save = matplotlib.figure.Figure.savefig
        matplotlib.figure.Figure.savefig = lambda self, fname, **kw: None
        try:
            self._execute(plan, run)
        finally:
            matplotlib.figure.Figure.savefig = real_save

    def _execute(self, plan, run):
        P = {k: dict(v) for k, v in plan['P'].items()}
        used = {n for s in plan['steps'] if s['t'] == 'op' for n in ops.names_in(s['op'])}
        used |= {s['n'] for s in plan['steps'] if s['t'] in ('edit', 'recreate')} | {s[x] for s in plan['steps'] if s['t'] == 'swap' for x in 'ab'}
        # the pristine reference comes first, so that it sees none of this
        pool, edits = {}, {}
        base_state = global_state()
        for n in sorted(used):
            pool[n] = ops.build(P[n])
            edits[n] = []
        self.last_result = None
        pattern = []
        for k, s in enumerate(plan['steps']):
            t = s['t']
            if t == 'op':
                if not self.step_op(run, P, pool, edits, k, s):
                    return
                pattern.append(s['op']['op'] + ''.join(d[0][0] for d in s.get('dis', [])))
            elif t == 'edit':
                if P[s['n']]['k'] == 'cct':
                    edits[s['n']].append(s)
                apply_edit(pool[s['n']], s)
                run.event(k, 'edit', s['n'], s['e'])
                run.fault('caller-edits-object')
                pattern.append('E')
            elif t == 'recreate':
                n = s['n']
                if not s['same']:
                    P[n] = variant(P[n], s['seed'])
                pool[n] = None
                edits[n] = []
                pool[n] = ops.build(P[n])
                run.event(k, 'recreate', n, s['same'])
                run.fault('caller-recreates-object')
                pattern.append('N')
            elif t == 'swap':
                a, b = s['a'], s['b']
                P[a], P[b], pool[a], pool[b], edits[a], edits[b] = P[b], P[a], pool[b], pool[a], edits[b], edits[a]
                pattern.append('S')
            elif t == 'edit_result':
                self.scribble(run, pool, s['x'])
                pattern.append('R')
            if self.results:
                now = global_state()
                for (name, x), (_, y) in zip(base_state, now):
                    if x != y:
                        run.violate('global-state:' + name, '%s changed by step %d (%s): %s -> %s' % (
                            name, k, s.get('op', s)['op'] if t == 'op' else t, str(x)[:200], str(y)[:200]))
                        return
        run.state = '-'.join(pattern)

    def scribble(self, run, pool, x):
        """the caller overwrites arrays he got back"""
        if self.last_result is None:
            return
        own = [a for o in pool.values() for a in arrays_of(o)]
        n = 0
        for a in arrays_of(self.last_result):
            if a.dtype.kind not in 'fc' or not a.flags.writeable or a.size == 0:
                continue
            if any(np.may_share_memory(a, b) for b in own):
                continue
            a[...] = np.nan if x == 'nan' else x
            n += 1
        if n:
            run.fault('caller-overwrites-result')
        run.event('scribble', n)

    def step_op(self, run, P, pool, edits, k, s):
        op = s['op']
        names = sorted(set(ops.names_in(op)))
        payload = dict(op=op, objs={n: ('val', pickle.dumps(pool[n])) if isinstance(pool[n], np.ndarray) else ('spec', (P[n], edits[n]))
                                    for n in names})
        before = {n: ops.fingerprint(pool[n]) for n in names} if self.args else None
        opfp = ops.fingerprint(op)
        runs = [('plain', None)]
        if s.get('dis'):
            runs = [('dis', d) for d in s['dis']] + ([('plain', None)] if s.get('then') else [])
            if self.args:
                runs = [('plain', None)] + [r for r in runs if r[0] == 'dis']
        count = None
        for kind, d in runs:
            get = pool.__getitem__
            res = exc = raw = None
            if kind == 'plain':
                st = Stepper() if (self.args and s.get('dis')) else None
                try:
                    if st is not None:
                        with st:
                            raw = ops.perform(op, get, P)
                        count = st.n
                    else:
                        raw = ops.perform(op, get, P)
                except ops.Modified as e:
                    run.violate('modified:matrix', str(e))
                    return False
                except Exception as e:
                    res = ('exc', type(e).__name__)
                    count = st.n if st is not None else None
                    del e
                else:
                    self.last_result = raw
                    res = ('ok', ops.norm(raw))
                run.event(k, op['op'], res[0])
                run.probe('op-' + op['op'])
                if self.results:
                    want = core.solo('session_op', payload)
                    diff = ops.same(want, res, 1e-9)
                    if diff:
                        run.violate('history-dependent:' + op['op'], 'step %d, %s: fresh process / this session %s' % (k, op['op'], diff))
                        return False
            else:
                what, at, kind2 = d
                hit = False
                if what == 'step':
                    if count is None:
                        count = core.solo('session_op', dict(payload, count=True))
                    n = 1 + int(at * count)
                    try:
                        with Stepper(raise_at=n, exc=EXC[kind2]()) as st:
                            ops.perform(op, get, P)
                    except ops.Modified as e:
                        run.violate('modified:matrix', str(e))
                        return False
                    except BaseException as e:
                        exc = type(e).__name__
                    hit = st.fired
                    if hit:
                        run.fault('interrupt-' + kind2)
                elif what == 'resp':
                    if not op.get('resp'):
                        continue
                    w = FailingResp(pool[op['resp']], at, kind2)
                    try:
                        ops.perform(op, lambda n: w if n == op['resp'] else pool[n], P)
                    except BaseException as e:
                        exc = type(e).__name__
                    hit = w._hit
                    if hit:
                        run.fault('callback-' + kind2)
                else:
                    term = FailingTerminal(at)
                    old = sys.stdout
                    sys.stdout = term
                    try:
                        ops.perform(op, get, P)
                    except BaseException as e:
                        exc = type(e).__name__
                    finally:
                        sys.stdout = old
                    hit = term.hit
                    if hit:
                        run.fault('terminal-fails')
                run.event(k, op['op'], what, hit, exc)
            if self.args:
                for n in names:
                    after = ops.fingerprint(pool[n])
                    if after != before[n]:
                        run.violate('modified:%s:%s' % (op['op'], P[n]['k']), 'step %d, %s%s: %s%s' % (
                            k, op['op'], '' if kind == 'plain' else ' cut short (%s)' % d, n, ops.fp_diff(before[n], after)))
                        return False
                if ops.fingerprint(op) != opfp:
                    run.violate('modified:%s:options' % op['op'], 'step %d: %s changed the options it was given%s' % (
                        k, op['op'], ops.fp_diff(opfp, ops.fingerprint(op))))
                    return False
        return True

    def shrink(self, plan):
        st = plan['steps']
        n = len(st)
        if n > 4:
            yield dict(plan, steps=st[:n // 2])
            yield dict(plan, steps=st[n // 2:])
        for k in range(n):
            yield dict(plan, steps=st[:k] + st[k + 1:])
        for k, s in enumerate(st):
            if s.get('dis'):
                yield dict(plan, steps=st[:k] + [dict(t='op', op=s['op'])] + st[k + 1:])
                for m in range(len(s['dis'])):
                    if len(s['dis']) > 1:
                        yield dict(plan, steps=st[:k] + [dict(s, dis=s['dis'][:m] + s['dis'][m + 1:])] + st[k + 1:])
        used = {n for s in st if s['t'] == 'op' for n in ops.names_in(s['op'])} | {s['n'] for s in st if 'n' in s} | \
            {s[x] for s in st if s['t'] == 'swap' for x in 'ab'}
        if set(plan['P']) - used:
            yield dict(plan, P={k: v for k, v in plan['P'].items() if k in used})


def variant(spec, seed):
    """the same kind of object with other values"""
    r = np.random.RandomState(seed % (1 << 31))
    s = dict(spec)
    k = s['k']
    if k in ('arr', 'vj'):
        s['seed'] = int(r.randint(1 << 20))
    elif k == 'cct':
        what = r.randint(4)
        if what == 0:
            s['freq'] = [round(f * 1.07, 4) for f in s['freq']]
        elif what == 1:
            s['vt'] = [[[round(a[0] * 1.2 + 0.01, 4), a[1]] for a in row] for row in s['vt']]
        elif what == 2:
            s['zt'] = [[[round(a[0] * 0.8 + 0.02, 4), a[1]] for a in row] for row in s['zt']]
        else:
            s['vmax'] = round(s['vmax'] * 0.9, 4)
    elif k == 'resp':
        s['q'] = 15 if s.get('q') != 15 else 40
        s['p'] = 12 if s.get('p') != 12 else 25
        if s['kind'] == 'sim':
            s['n'] = 12 if s['n'] != 12 else 25
    elif k in ('iv', 'if'):
        s['j'] = dict(s['j'], seed=int(r.randint(1 << 20)), rn=round(s['j']['rn'] * 1.1, 3))
    elif k == 'dc':
        s['iv'] = variant(s['iv'], seed)
    elif k == 'dcdata':
        s['iv'] = variant(s['iv'], seed)
    return s


class Untouched(Session):
    id = 'session-args'
    args = True
    budget = {'quick': (1600, 150), 'thorough': (40000, 780)}
    rule = ('sessions of 4-14 operations on shared objects; operations also cut short by interrupts at random QMix statements, failing '
            'callbacks and a failing terminal; after every (partial) call every object handed in is compared bit by bit with its state '
            'before the call; non-trivial: at least one call was cut short')
    state_measure = 'distinct sequences of (operation, disturbances)'
    real = ['qmix (all operations)', 'numba kernels', 'matplotlib (plot methods, saving stubbed)']
    stubs = ['terminal', 'analytic response function (some runs)', 'Figure.savefig']
    assumptions = ['interrupts arrive at QMix statement boundaries, not inside with/try headers, except and finally bodies',
                   'private attributes are not contents']


class History(Session):
    id = 'session-history'
    results = True
    needs_solo = True
    budget = {'quick': (1300, 150), 'thorough': (40000, 780)}
    rule = ('sessions of 4-14 operations with interrupted calls, failing callbacks/terminals, in-place edits of arguments and of earlier '
            'results, objects dropped and recreated; every completed call is compared with the same call in a pristine process, and '
            'process-wide state with its value at the start; non-trivial: at least one disturbance or edit took effect')
    state_measure = 'distinct sequences of (operation, disturbances, edits)'
    real = ['qmix (all operations)', 'numba kernels', 'matplotlib (plot methods, saving stubbed)']
    stubs = ['terminal', 'Figure.savefig', 'analytic response function (some runs)', 'pristine process = fork taken before the session starts']
    assumptions = ['interrupts arrive at QMix statement boundaries, not inside with/try headers, except and finally bodies']
