"""Runner: seeded runs in forked processes, minimisation, replay files, evidence."""
import gc
import hashlib
import json
import os
import pickle
import select
import signal
import struct
import sys
import time as _t
import traceback
from collections import Counter

from . import boot as _boot
from . import simclock
from .rng import Rng

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = os.path.join(HERE, 'out')
_now = simclock.real_monotonic


# ----------------------------------------------------------------- outcome
class Run:
    """What a world reports about one simulated execution."""

    def __init__(self, plan):
        self.plan = plan
        self.viol = []          # (sig, msg)
        self.faults = Counter()
        self.probes = Counter()
        self.hist = hashlib.sha256()
        self.sim_time = 0.0
        self.steps = 0
        self.nontrivial = False
        self.explicit = None    # plan with every lazy decision written out
        self.state = None       # distinct-state measure (hashable str)
        self.log = []

    def event(self, *a):
        s = repr(a)
        self.hist.update(s.encode() + b'\n')
        if len(self.log) < 400:
            self.log.append(s[:300])

    def fault(self, kind, n=1):
        self.faults[kind] += n
        self.nontrivial = True

    def probe(self, name, n=1):
        self.probes[name] += n

    def violate(self, sig, msg):
        self.viol.append((sig, str(msg)[:2000]))
        self.event('VIOLATION', sig)

    def out(self):
        return dict(viol=self.viol, faults=dict(self.faults), probes=dict(self.probes), hist=self.hist.hexdigest()[:24],
                    sim_time=self.sim_time, steps=self.steps, nontrivial=self.nontrivial,
                    explicit=self.explicit if self.explicit is not None else self.plan, state=self.state,
                    log=self.log[-60:], error=None)


# ------------------------------------------------------------ process plumbing
def _send(fd, b):
    b = struct.pack('<Q', len(b)) + b
    off = 0
    while off < len(b):
        off += os.write(fd, b[off:off + 65536])


def _readn(fd, n):
    parts = []
    while n:
        c = os.read(fd, min(n, 1 << 20))
        if not c:
            return None
        parts.append(c)
        n -= len(c)
    return b''.join(parts)


def _recv(fd):
    h = _readn(fd, 8)
    if h is None:
        return None
    return _readn(fd, struct.unpack('<Q', h)[0])


class Sink:
    """Silent terminal."""
    encoding = 'utf-8'
    errors = 'strict'

    def write(self, s):
        return len(s)

    def flush(self):
        pass

    def isatty(self):
        return False

    def writable(self):
        return True


_solo_fd = None
SOLO_HANDLERS = {}


def _solo_server(rfd, wfd):
    """Pristine process: evaluates every request in a child of its own."""
    while True:
        req = _recv(rfd)
        if req is None:
            os._exit(0)
        pid = os.fork()
        if pid == 0:
            os.close(rfd)
            try:
                sys.stdout = Sink()
                kind, payload = pickle.loads(req)
                res = ('ok', SOLO_HANDLERS[kind](payload))
                blob = pickle.dumps(res)
            except BaseException:
                blob = pickle.dumps(('err', traceback.format_exc()))
            _send(wfd, blob)
            os._exit(0)
        _, st = os.waitpid(pid, 0)
        if st != 0:
            _send(wfd, pickle.dumps(('err', 'solo process died: status %d' % st)))


class SoloError(Exception):
    pass


_solo_memo = {}


def solo(kind, payload, memo=True):
    """Evaluate in a pristine process (forked before this run did anything)."""
    req = pickle.dumps((kind, payload))
    if memo and req in _solo_memo:
        return _solo_memo[req]
    _send(_solo_fd[1], req)
    b = _recv(_solo_fd[0])
    if b is None:
        raise SoloError('solo server gone')
    st, res = pickle.loads(b)
    if st != 'ok':
        raise SoloError(res)
    if memo:
        _solo_memo[req] = res
    return res


def _start_solo():
    global _solo_fd
    r1, w1 = os.pipe()
    r2, w2 = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(w1)
        os.close(r2)
        try:
            import ctypes
            ctypes.CDLL(None).prctl(1, signal.SIGKILL)     # die with the run
        except Exception:
            pass
        _solo_server(r1, w2)
        os._exit(0)
    os.close(r1)
    os.close(w2)
    _solo_fd = (r2, w1)


def qmix_in_tb(e):
    tb = e.__traceback__
    while tb is not None:
        if tb.tb_frame.f_code.co_filename.startswith(_boot.QMIX_DIR):
            return True
        tb = tb.tb_next
    return False


def execute(world, plan):
    """Execute one plan in this process (a fresh fork)."""
    run = Run(plan)
    sys.stdout = Sink()
    gc.disable()
    try:
        world.execute(plan, run)
        return run.out()
    except BaseException as e:
        o = run.out()
        if qmix_in_tb(e):
            # valid use of the API failed although no fault was active
            o['viol'].append(('unexpected-exception:%s' % type(e).__name__,
                              ''.join(traceback.format_exception(e))[-1500:]))
        else:
            o['error'] = ''.join(traceback.format_exception(e))[-3000:]
        return o


def run_child(world, job, wfd):
    scratch = os.path.join(_boot.SCRATCH, 'run-%d' % os.getpid())
    os.mkdir(scratch)
    _boot.RUN_SCRATCH = scratch
    os.chdir(scratch)
    if world.needs_solo:
        _start_solo()
    if 'plan' in job:
        plan = job['plan']
    else:
        rng = Rng(job['seed'], world.id, job['i'])
        plan = world.gen(rng, job['tier'])
        plan = json.loads(json.dumps(plan))
    o = execute(world, plan)
    o['job'] = {k: v for k, v in job.items() if k != 'plan'}
    _send(wfd, json.dumps(o, default=str).encode())


def _rm(path):
    """Remove one run's scratch folder (only ever below our own scratch dir)."""
    import shutil
    if path.startswith(_boot.SCRATCH + os.sep + 'run-'):
        shutil.rmtree(path, ignore_errors=True)


class Pool:
    """Up to n runs at a time, each in a fork of this pristine process."""

    def __init__(self, world, n, timeout):
        self.world, self.n, self.timeout = world, n, timeout
        self.live = {}

    def start(self, job):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.setpgid(0, 0)
                for rr in self.live:
                    os.close(rr)
                os.close(r)
                run_child(self.world, job, w)
            except BaseException:
                try:
                    _send(w, json.dumps(dict(viol=[], error='harness: ' + traceback.format_exc(), faults={}, probes={},
                                             hist='', sim_time=0, steps=0, nontrivial=False, explicit=None, state=None,
                                             log=[], job={k: v for k, v in job.items() if k != 'plan'})).encode())
                except BaseException:
                    pass
            os._exit(0)
        os.close(w)
        self.live[r] = (pid, job, _now(), bytearray())

    def collect(self, block=True):
        """yield finished outcomes"""
        done = []
        if not self.live:
            return done
        rs, _, _ = select.select(list(self.live), [], [], 0.5 if block else 0)
        for r in rs:
            pid, job, t0, buf = self.live[r]
            c = os.read(r, 1 << 20)
            if c:
                buf += c
                continue
            self._reap(r, pid)
            if len(buf) >= 8:
                done.append(json.loads(bytes(buf[8:])))
            else:
                done.append(self._bad(job, 'run process died'))
        for r in list(self.live):
            pid, job, t0, buf = self.live[r]
            if _now() - t0 > self.timeout:
                try:
                    os.killpg(pid, signal.SIGKILL)
                except OSError:
                    pass
                try:
                    os.kill(pid, signal.SIGKILL)
                except OSError:
                    pass
                self._reap(r, pid)
                done.append(self._bad(job, 'run exceeded %d s of wall time' % self.timeout))
        return done

    def _bad(self, job, msg):
        return dict(viol=[], error='harness: ' + msg, faults={}, probes={}, hist='', sim_time=0, steps=0,
                    nontrivial=False, explicit=job.get('plan'), state=None, log=[],
                    job={k: v for k, v in job.items() if k != 'plan'})

    def _reap(self, r, pid):
        os.close(r)
        del self.live[r]
        try:
            os.waitpid(pid, 0)
        except ChildProcessError:
            pass
        _rm(os.path.join(_boot.SCRATCH, 'run-%d' % pid))

    def stop(self):
        for r in list(self.live):
            pid = self.live[r][0]
            try:
                os.killpg(pid, signal.SIGKILL)
            except OSError:
                pass
            self._reap(r, pid)

    def map(self, jobs, deadline=None, stop_when=None):
        outs = []
        it = iter(jobs)
        more = True
        while True:
            while more and len(self.live) < self.n:
                if (deadline is not None and _now() > deadline) or (stop_when and stop_when(outs)):
                    more = False
                    break
                try:
                    job = next(it)
                except StopIteration:
                    more = False
                    break
                self.start(job)
            if not self.live:
                if not more:
                    break
                continue
            outs.extend(self.collect())
        return outs


def run_plans(world, plans, n=8, timeout=90):
    """execute explicit plans, results in order"""
    p = Pool(world, n, timeout)
    outs = p.map([dict(plan=pl, k=k) for k, pl in enumerate(plans)])
    outs.sort(key=lambda o: o['job']['k'])
    return outs


# ---------------------------------------------------------------- minimising
def sigs(o):
    return [s for s, _ in o['viol']]


def minimise(world, plan, sig, cap_s=60, n=8):
    """Greedy shrinking: keep any simpler plan with the same violation class."""
    end = _now() + cap_s
    best = plan
    tried = 0
    progress = True
    while progress and _now() < end:
        progress = False
        cands = []
        seen = set()
        for c in world.shrink(best):
            c = json.loads(json.dumps(c))
            key = json.dumps(c, sort_keys=True)
            if key in seen or key == json.dumps(best, sort_keys=True):
                continue
            seen.add(key)
            cands.append(c)
            if len(cands) >= 400:
                break
        for k in range(0, len(cands), n):
            if _now() > end:
                break
            chunk = cands[k:k + n]
            outs = run_plans(world, chunk, n)
            tried += len(chunk)
            hit = [c for c, o in zip(chunk, outs) if sig in sigs(o)]
            if hit:
                o = outs[chunk.index(hit[0])]
                best = o['explicit'] if o.get('explicit') else hit[0]
                progress = True
                break
    return best, tried


# ------------------------------------------------------------------- checks
def load_known():
    """known_findings: lines 'finding: property=<id> sig=<sig> <what fails>' and 'fixed: ...'"""
    out = []
    p = os.path.join(HERE, 'known_findings')
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith('finding:'):
                d = dict(x.split('=', 1) for x in line.split() if '=' in x and x.split('=')[0] in ('property', 'sig'))
                d['text'] = line.split(None, 3)[-1]
                out.append(d)
    return out


def check(world, prop, tier, seed, runs=None, wall=None, jobs=8, verbose=False):
    t0 = _now()
    nruns = runs or world.budget[tier][0]
    cap = wall or world.budget[tier][1]
    known = [k for k in load_known() if k['property'] == prop]
    ksig = {k['sig'] for k in known}
    pool = Pool(world, jobs, world.run_timeout)

    def enough(outs):
        """stop early once something new was found a few times"""
        bad = {s for o in outs for s, _ in o['viol'] if s not in ksig}
        nbad = sum(1 for o in outs if any(s not in ksig for s, _ in o['viol']))
        return nbad >= 6 or (bad and _now() - t0 > 90)
    print('seed=%d property=%s tier=%s runs=%d tree=%s' % (seed, prop, tier, nruns, _boot.tree_digest()), flush=True)
    outs = pool.map((dict(seed=seed, i=i, tier=tier) for i in range(nruns)), deadline=t0 + cap, stop_when=enough)
    t_runs = _now() - t0
    outs.sort(key=lambda o: o['job']['i'])
    errors = [o for o in outs if o['error']]
    found = {}
    for o in outs:
        for s, m in o['viol']:
            found.setdefault(s, []).append((o, m))
    nviol = 0
    for s in sorted(found, key=lambda s: found[s][0][0]['job']['i']):
        o, m = found[s][0]
        if s in ksig:
            print('KNOWN-FINDING: property=%s %s' % (prop, [k['text'] for k in known if k['sig'] == s][0]))
            continue
        nviol += 1
        if nviol > 3:
            continue
        path = report(world, prop, tier, seed, o, s, m, jobs)
        print('VIOLATION property=%s replay=%s' % (prop, path))
        print('  %s: %s' % (s, m.replace('\n', '\n  ')[:1200]), flush=True)
    evidence(world, prop, tier, seed, outs, nruns, t_runs, _now() - t0, nviol)
    for o in errors[:3]:
        print('HARNESS-ERROR run %s:\n%s' % (o['job'], o['error']), file=sys.stderr)
    print('%d runs in %.1f s (%.0f runs/h), %d distinct histories, %d errors, %d violation classes' % (
        len(outs), t_runs, len(outs) / max(t_runs, 1e-9) * 3600, len({o['hist'] for o in outs}), len(errors), nviol))
    if verbose:
        fs, ps = Counter(), Counter()
        for o in outs:
            fs.update(o['faults'])
            ps.update(o['probes'])
        print('faults', dict(sorted(fs.items())))
        print('probes', dict(sorted(ps.items())))
    if nviol:
        return 1
    if errors or not outs:
        return 2
    return 0


def report(world, prop, tier, seed, o, sig, msg, jobs):
    os.makedirs(OUT, exist_ok=True)
    plan = o['explicit']
    first = run_plans(world, [plan], 1, world.run_timeout)[0]
    rec = dict(property=prop, world=world.id, sig=sig, msg=msg, seed=seed, run=o['job'].get('i'), tier=tier,
               tree=_boot.tree_digest())
    if sig in sigs(first):
        best, tried = minimise(world, plan, sig, n=jobs)
        a, b = run_plans(world, [best, best], 2, world.run_timeout)
        if sig in sigs(a) and sig in sigs(b) and a['hist'] == b['hist']:
            rec.update(mode='plan', plan=best, original_plan=plan, shrink_attempts=tried, hist=a['hist'],
                       msg=[m for s, m in a['viol'] if s == sig][0], log=a['log'])
        else:
            rec.update(mode='plan', plan=plan, hist=first['hist'], log=first['log'], note='minimised plan was unstable')
    else:
        rec.update(mode='seed', plan=plan, note='reproduces from the seed, not from the explicit plan', log=o['log'])
    name = '%s-%s.json' % (prop, hashlib.sha256((sig + json.dumps(rec['plan'], sort_keys=True)).encode()).hexdigest()[:10])
    path = os.path.join(OUT, name)
    with open(path, 'w') as f:
        json.dump(rec, f, indent=1, default=str)
    return path


def replay(world, rec):
    if rec['mode'] == 'plan':
        o = run_plans(world, [rec['plan']], 1, world.run_timeout)[0]
    else:
        p = Pool(world, 1, world.run_timeout)
        o = p.map([dict(seed=rec['seed'], i=rec['run'], tier=rec['tier'])])[0]
    print('replay of %s (recorded on tree %s, this tree %s)' % (rec['sig'], rec['tree'], _boot.tree_digest()))
    for line in o['log']:
        print('   ', line)
    if o['error']:
        print('HARNESS-ERROR', o['error'])
        return 2
    for s, m in o['viol']:
        print('VIOLATION property=%s replay=%s' % (rec['property'], rec.get('_path')))
        print('  %s: %s' % (s, m))
    if rec.get('hist') and o['viol']:
        print('history digest %s (%s)' % (o['hist'], 'identical' if o['hist'] == rec['hist'] else 'DIFFERS from the recorded run'))
    return 1 if o['viol'] else 0


def evidence(world, prop, tier, seed, outs, planned, t_runs, wall, nviol):
    fs, ps = Counter(), Counter()
    for o in outs:
        fs.update(o['faults'])
        ps.update(o['probes'])
    hists = {o['hist'] for o in outs if o['nontrivial']}
    states = {o['state'] for o in outs if o['state'] is not None}
    samples = []
    for o in outs:
        if o['nontrivial'] and o['explicit'] and len(json.dumps(o['explicit'])) < 6000:
            samples.append(dict(seed=seed, run=o['job'].get('i'), plan=o['explicit'], history=o['hist'], events=o['log'][:12]))
        if len(samples) >= 2:
            break
    steps = sum(o['steps'] for o in outs)
    d = dict(property=prop, tier=tier, seed=seed, level='exploration', wall_s=round(wall, 2), violations=nviol,
             coverage=dict(
                 evaluations=len(outs), distinct_nontrivial=len(hists),
                 rule=world.rule, samples=samples,
                 runs_planned=planned, seeds='run i derives every choice from sha256(VERIF_SEED=%d, world %s, i)' % (seed, world.id),
                 runs_per_hour=int(len(outs) / max(t_runs, 1e-9) * 3600),
                 simulated_time_s=round(sum(o['sim_time'] for o in outs), 3),
                 qmix_steps=steps,
                 faults_injected=dict(sorted(fs.items())),
                 reach_probes=dict(sorted(ps.items())),
                 distinct_states=len(states), distinct_states_measure=world.state_measure,
                 real_components=world.real, stub_components=world.stubs,
                 harness_errors=sum(1 for o in outs if o['error'])),
             assumptions=world.assumptions)
    p = os.path.join(HERE, 'evidence')
    os.makedirs(p, exist_ok=True)
    with open(os.path.join(p, prop + '.json'), 'w') as f:
        json.dump(d, f, indent=1, default=str)


class World:
    id = '?'
    needs_solo = False
    run_timeout = 120
    budget = {'quick': (200, 240), 'thorough': (5000, 780)}
    rule = ''
    state_measure = 'distinct run-history digests'
    real = []
    stubs = []
    assumptions = []

    def prepare(self):
        """once, in the pristine parent process"""

    def gen(self, rng, tier):
        raise NotImplementedError

    def execute(self, plan, run):
        raise NotImplementedError

    def shrink(self, plan):
        return []
