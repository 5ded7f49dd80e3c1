"""C10: histories of circuit settings with failures, interrupts and locks against a reference model."""
import math
import os

import numpy as np

from .. import core, objs
from ..core import World
from ..objs import SimResp
from ..sched import Stepper

H, E = 6.62607015e-34, 1.602176634e-19
POW = {'W': 1., 'mW': 1e-3, 'uW': 1e-6, 'nW': 1e-9, 'pW': 1e-12, 'fW': 1e-15}
FRQ = {'Hz': 1., 'MHz': 1e6, 'GHz': 1e9, 'THz': 1e12}
BAD_P = ['', 'kW', 'dB', 'W ', 'dBmW', 'watt', 5, None, 'norm', 'GHz']
BAD_F = ['', 'kHz', 'G', 'norm.', 'eV', 'uV', 7, None, 'W', 'dBm']
SETTERS = ('freq', 'power', 'alpha', 'name', 'dfreq', 'dvt', 'dzt', 'dvb', 'avt', 'azt', 'attr')
ATTRS = ('name', 'num_f', 'num_p', 'num_n', 'vb_npts', 'fgap', 'vgap', 'rn', 'igap')


def snap(c):
    """everything a circuit holds, bit by bit"""
    a = lambda x: (str(x.dtype), x.shape, x.copy())
    return dict(freq=a(c.freq), vt=a(c.vt), zt=a(c.zt), vb=a(c.vb), comment=[list(r) for r in c.comment],
                misc=tuple(getattr(c, a) for a in ATTRS))


def diff(a, b):
    """paths that are not identical (bits)"""
    out = []
    for k in ('freq', 'vt', 'zt', 'vb'):
        if a[k][:2] != b[k][:2]:
            out.append((k, None))
            continue
        x, y = a[k][2], b[k][2]
        m = x.reshape(-1).view(np.uint8).reshape(x.size, -1) != y.reshape(-1).view(np.uint8).reshape(x.size, -1)
        for i in np.flatnonzero(m.any(axis=1)):
            out.append((k, tuple(int(q) for q in np.unravel_index(i, x.shape))))
    for f, (r, s) in enumerate(zip(a['comment'], b['comment'])):
        for p, (x, y) in enumerate(zip(r, s)):
            if x != y:
                out.append(('comment', (f, p)))
    if [len(r) for r in a['comment']] != [len(r) for r in b['comment']]:
        out.append(('comment', None))
    for i, (x, y) in enumerate(zip(a['misc'], b['misc'])):
        if not (x is y or (type(x) is type(y) and x == y)):
            out.append(('misc', (i,)))
    return out


def near(x, y, rtol=1e-11):
    if isinstance(x, str) or isinstance(y, str):
        return x == y
    x, y = complex(x), complex(y)
    if x != x or y != y:
        return (x != x) and (y != y)
    if x == y:
        return True
    if any(math.isinf(q) for q in (x.real, x.imag, y.real, y.imag)):
        return False
    return abs(x - y) <= rtol * max(abs(x), abs(y))


class Model:
    def __init__(self, s):
        kw = s['kw']
        self.fgap, self.vgap, self.rn = kw.get('fgap'), kw.get('vgap'), kw.get('rn')
        if self.vgap is None and self.fgap is not None:
            self.vgap = self.fgap * H / E
        elif self.fgap is None and self.vgap is not None:
            self.fgap = self.vgap * E / H
        self.igap = self.vgap / self.rn if self.vgap is not None and self.rn is not None else None
        self.nf, self.np = s['nf'], s['np']

    def predict(self, op, st, locked):
        """('skip',) | ('fail',) | ('set', key, index, value, exact)"""
        k = op['op']
        f, p = op['f'], op['p']
        in_f, in_p = f <= self.nf, p <= self.np
        if k == 'name':
            if not (in_f and in_p):
                return ('fail',)
            return ('set', 'comment', (f, p), op['x'], True)
        if k == 'attr':
            return ('set', 'misc', (ATTRS.index(op['a']),), op['x'], True)
        if k in ('freq', 'dfreq'):
            x, u = op['x'], op.get('u', 'norm')
            if k == 'freq':
                if (self.fgap is None) != (self.vgap is None):
                    return ('skip',)       # only one of them edited: not specified which units work
                if u not in ('norm', 'NORM', 'Norm') and self.fgap is None:
                    return ('fail',)
                lu = u.lower() if isinstance(u, str) else None
                scale = {q.lower(): v / (self.fgap or 1) for q, v in FRQ.items()}
                scale.update({'v': 1 / (self.vgap or 1), 'mv': 1e-3 / (self.vgap or 1), 'norm': 1.})
                if lu not in scale:
                    return ('fail',)
                if isinstance(x, (str, list)):
                    return ('fail',)
                x = x * scale[lu]
            if isinstance(x, (str, list)) or not in_f or locked:
                return ('fail',)
            return ('set', 'freq', (f,), x, k == 'dfreq')
        if k in ('dvt', 'dzt', 'avt', 'azt'):
            if isinstance(op['x'], str) or not (in_f and in_p) or locked:
                return ('fail',)
            return ('set', k[1:], (f, p), complex(*op['x']), True)
        if k == 'dvb':
            if locked:
                return ('fail',)
            return ('set', 'vb', (op['i'] % st['vb'][2].size,), op['x'], True)
        if not (in_f and in_p):
            return ('fail',)
        zt = complex(st['zt'][2][f, p])
        if k == 'power':
            if self.vgap is None or self.rn is None or zt == 0:
                return ('fail',)
            u = op['u'].lower() if isinstance(op['u'], str) else None
            w = {q.lower(): v for q, v in POW.items()}
            if u in w:
                if isinstance(op['x'], (str, list)):
                    return ('fail',)
                if op['x'] < 0:
                    return ('skip',)
                P = op['x'] * w[u]
            elif u in ('dbm', 'dbw'):
                if isinstance(op['x'], (str, list)):
                    return ('fail',)
                x = max(-400., min(200., op['x']))
                if x != op['x']:
                    return ('skip',)
                P = 10. ** (x / 10.) * (1e-3 if u == 'dbm' else 1.)
            else:
                return ('fail',)
            if zt.real <= 0 or not math.isfinite(zt.real):
                return ('skip',)       # no power can be delivered
            if locked:
                return ('fail',)
            return ('set', 'vt', (f, p), math.sqrt(8 * P * zt.real * self.rn) / self.vgap, False)
        if k == 'alpha':
            fr = float(st['freq'][2][f])
            if zt == 0 or fr == 0 or isinstance(op['x'], (str, list)) or locked:
                return ('fail',)
            zj = op['zj']
            zj = complex(*zj) if isinstance(zj, list) else (0.66 if zj is None else zj)
            return ('set', 'vt', (f, p), op['x'] * fr * (zt / zj + 1), False)
        raise KeyError(k)

    def power(self, st, f, p, unit):
        v = abs(complex(st['vt'][2][f, p])) * self.vgap
        r = complex(st['zt'][2][f, p]).real * self.rn
        P = v ** 2 / r / 8. if r != 0 else 0.
        for q, s in POW.items():
            if q.lower() == unit.lower():
                return P / s
        if unit.lower() in ('dbm', 'dbw'):
            if P == 0:
                return -math.inf
            if P < 0:
                return math.nan
            return 10 * math.log10(P) + (30 if unit.lower() == 'dbm' else 0)
        return None


def case(rng, u):
    return rng.choice([u, u, u.lower(), u.upper()])


def call(c, op):
    k, f, p = op['op'], op['f'], op['p']
    x = op.get('x')
    if op.get('ty') and isinstance(x, (int, float)):
        x = {'f32': np.float32, 'f64': np.float64, 'i64': np.int64, 'int': int, 'f0d': np.array}[op['ty']](x)
    if k == 'freq':
        c.set_freq(x, f, op['u']) if op['pos'] else c.set_freq(x, f=f, units=op['u'])
    elif k == 'power':
        c.set_available_power(x, f, p, op['u']) if op['pos'] else c.set_available_power(x, f=f, p=p, units=op['u'])
    elif k == 'alpha':
        zj = op['zj']
        zj = complex(*zj) if isinstance(zj, list) else zj
        if zj is None:
            c.set_alpha(x, f, p)
        else:
            c.set_alpha(x, f, p, zj)
    elif k == 'name':
        c.set_name(op['x'], f, p)
    elif k == 'dfreq':
        if op['pos']:
            c.freq[f] = x
        else:
            c.vph[f] = x
    elif k in ('dvt', 'avt'):
        c.vt[f, p] = complex(*x) if isinstance(x, list) else x
    elif k in ('dzt', 'azt'):
        c.zt[f, p] = complex(*x) if isinstance(x, list) else x
    elif k == 'attr':
        setattr(c, op['a'], op['x'])
    elif k == 'dvb':
        c.vb[op['i'] % c.vb.size] = x


class Settings(World):
    id = 'settings'
    run_timeout = 90
    budget = {'quick': (3000, 150), 'thorough': (120000, 780)}
    rule = ('1-2 circuits, 6-40 operations each run: settings in every unit with valid and invalid arguments, direct edits, lock/unlock, '
            'calculations, some of them interrupted at a QMix statement or bytecode; after each operation every element is compared with a '
            'reference model (bit-identical where nothing was set); non-trivial: a failing or interrupted setting or a locked circuit')
    state_measure = 'distinct (operation, outcome, locked) triples sets'
    real = ['qmix.circuit', 'qmix.qtcurrent / harmonic_balance (calculations in between)']
    stubs = ['interrupts', 'terminal', 'analytic response function']
    assumptions = ['available power of a signal whose Thevenin resistance is zero or negative is not specified for setting',
                   'lock() and unlock() themselves are not interrupted', 'names are not part of what a lock protects (may be set or rejected)']

    def gen(self, rng, tier):
        ccts = []
        for _ in range(rng.pick({1: 3, 2: 2})):
            kw = {}
            style = rng.pick({'none': 2, 'vgap': 3, 'fgap': 2, 'both': 2, 'incons': 1})
            vg = round(rng.uniform(2e-3, 3.2e-3), 6)
            if style in ('vgap', 'both', 'incons'):
                kw['vgap'] = vg
            if style in ('fgap', 'both'):
                kw['fgap'] = float('%.6g' % (vg * E / H))
            if style == 'incons':
                kw['fgap'] = float('%.4g' % (vg * E / H * 1.05))
            if rng.chance(0.75):
                kw['rn'] = round(rng.uniform(5, 30), 2)
            if rng.chance(0.2):
                kw['name'] = rng.choice(['LO', 'test 1', '', 'a long name: 2nd junction of the array, measured in cool-down #3 (\u00b5)'])
            n = rng.choice([1, 2, 3, 5, 9])
            ccts.append(dict(nf=rng.pick({1: 4, 2: 3, 3: 1, 4: 1}), np=rng.pick({1: 4, 2: 3, 3: 1}), npts=n,
                             vmin=rng.choice([0, 0.0, -1, 0.3]), vmax=rng.choice([1, 2, 1.5, 0.3]) , kw=kw))
        hist = []
        lim = rng.choice([6, 15, 40])
        for c, s in enumerate(ccts):
            if rng.chance(0.7):        # start from a usable circuit
                for f in range(1, s['nf'] + 1):
                    hist.append(dict(op='dfreq', c=c, f=f, p=1, pos=True, x=rng.uniform(0.05, 1.2)))
                    for p in range(1, s['np'] + 1):
                        hist.append(dict(op='dzt', c=c, f=f, p=p, pos=True, x=[rng.uniform(0.05, 1.2), rng.uniform(-.5, .5)]))
        for _ in range(lim):
            hist.append(self.gen_op(rng, ccts))
        return dict(ccts=ccts, hist=hist)

    def gen_op(self, rng, ccts):
        c = rng.randrange(len(ccts))
        s = ccts[c]
        k = rng.pick({'freq': 5, 'power': 6, 'alpha': 3, 'name': 1, 'dfreq': 3, 'dvt': 3, 'dzt': 6, 'dvb': 1, 'lock': 1.2, 'unlock': 1.2,
                      'attr': 1.2, 'calc': 1.5, 'print': 0.5, 'save': 0.5, 'read': 3, 'vj': 0.5, 'badnew': 0.3})
        op = dict(op=k, c=c, f=rng.randint(1, s['nf']), p=rng.randint(1, s['np']), pos=rng.chance(0.5))
        if rng.chance(0.07):
            op['f'] = s['nf'] + rng.randint(1, 3)
        if rng.chance(0.07):
            op['p'] = s['np'] + rng.randint(1, 3)
        bad = rng.chance(0.12)
        if k == 'freq':
            op['u'] = rng.choice(BAD_F) if bad else case(rng, rng.choice(list(FRQ) + ['V', 'mV', 'norm']))
            if op['u'] is None:
                op['u'] = None
            base = rng.choice([rng.uniform(0.05, 1.2), round(rng.uniform(0.1, 1), 2)])
            u = op['u'].lower() if isinstance(op['u'], str) else ''
            x = base * {'hz': 6e11, 'mhz': 6e5, 'ghz': 600, 'thz': .6, 'v': 2.8e-3, 'mv': 2.8}.get(u, 1)
            op['x'] = rng.pick([(x, 6), (float('%.3g' % x), 4), (int(x) if x > 5 else 1, 3), ('abc', .3), ([1., 2.], .3), (0.0, .3)])
        elif k == 'power':
            op['u'] = rng.choice(BAD_P) if bad else case(rng, rng.choice(list(POW) + ['dBm', 'dBW']))
            u = op['u'].lower() if isinstance(op['u'], str) else ''
            if u.startswith('db'):
                op['x'] = rng.choice([rng.uniform(-120, 20), float(rng.randint(-90, 0)), rng.randint(-90, 10)])
            else:
                x = rng.logu(1e-12, 1e-3) / {q.lower(): v for q, v in POW.items()}.get(u, 1)
                op['x'] = rng.pick([(x, 6), (float('%.3g' % x), 4), (int(x) if x > 5 else 1, 3), ('abc', .3), ([1., 2.], .3), (0, .3)])
        elif k == 'alpha':
            op['x'] = rng.pick([(round(rng.uniform(0, 3), 3), 8), (1, 2), ('abc', .5)])
            op['zj'] = rng.choice([None, None, 0.66, 1, 0.3, [0.5, -0.2]])
        elif k == 'name':
            op['x'] = rng.choice(['LO', 'RF', '', 'a b', ' f=1 ', 'second harmonic of the local oscillator, \u00b5V'])
        elif k == 'dfreq':
            op['x'] = rng.pick([(rng.uniform(0.05, 1.2), 6), (0.0, 1), (1, 1), ('abc', .5)])
        elif k in ('dvt', 'dzt'):
            op['x'] = rng.pick([([rng.uniform(0.05, 1.2), rng.uniform(-.5, .5)], 8), ([round(rng.uniform(0.1, 1), 2), 0.0], 4),
                                ([0.0, 0.0], 1), ('abc', .5), ([0.0, 0.5], .5)])
        elif k == 'dvb':
            op['i'] = rng.randrange(20)
            op['x'] = rng.uniform(-2, 2)
        elif k == 'attr':
            op['a'] = rng.choice(['vgap', 'rn', 'fgap', 'name'])
            op['x'] = {'vgap': round(rng.uniform(2e-3, 3.2e-3), 6), 'rn': round(rng.uniform(5, 30), 2),
                       'fgap': float('%.6g' % rng.uniform(5e11, 8e11)), 'name': 'renamed'}[op['a']]
            if op['a'] != 'name' and rng.chance(0.12):
                op['x'] = None
        elif k == 'calc':
            op['hb'] = rng.chance(0.5)
            op['fail'] = rng.pick({'': 5, 'raise': 2, 'nan': 1})
        elif k == 'badnew':
            op['kw'] = rng.choice([dict(num_f=0), dict(num_f=5), dict(num_p=0), dict(num_p=1.5), dict(vb_npts=0), dict(vb_min=1, vb_max=0.5),
                                   dict(vb_npts=2.5)])
        if k in ('freq', 'power', 'alpha', 'dfreq') and isinstance(op.get('x'), (int, float)) and rng.chance(0.25):
            op['ty'] = rng.choice(['f64', 'f0d'] + (['i64', 'int'] if float(op['x']).is_integer() and abs(op['x']) < 1e15 else []))
        if k not in ('lock', 'unlock', 'badnew') and rng.chance(0.25):
            op['int'] = [rng.randint(1, 14) if k in SETTERS else rng.randint(1, 120), rng.choice(['KeyboardInterrupt', 'MemoryError']), rng.chance(0.3)]
        return op

    def execute(self, plan, run):
        from qmix.circuit import EmbeddingCircuit
        models, ccts, locked = [], [], []
        for s in plan['ccts']:
            vmax = max(s['vmax'], s['vmin'])
            c = EmbeddingCircuit(s['nf'], s['np'], vb_min=s['vmin'], vb_max=vmax, vb_npts=s['npts'], **s['kw'])
            m = Model(s)
            models.append(m)
            ccts.append(c)
            locked.append(False)
            st = snap(c)
            for got, want, what in ((c.fgap, m.fgap, 'fgap'), (c.vgap, m.vgap, 'vgap'), (c.rn, m.rn, 'rn'), (c.igap, m.igap, 'igap')):
                if (got is None) != (want is None) or (got is not None and not near(got, want, 1e-9)):
                    run.violate('new-circuit', '%s is %r, expected %r (%r)' % (what, got, want, s))
                    return
            vb = [s['vmin'] + (vmax - s['vmin']) * k / max(s['npts'] - 1, 1) for k in range(s['npts'])]
            if c.vb.shape != (s['npts'],) or not np.allclose(c.vb, vb, rtol=1e-12, atol=1e-12) or \
                    st['freq'][2].any() or st['vt'][2].any() or st['zt'][2].any() or c.freq.shape != (s['nf'] + 1,) or \
                    c.vt.shape != (s['nf'] + 1, s['np'] + 1) or c.zt.shape != c.vt.shape or any(x for r in c.comment for x in r):
                run.violate('new-circuit', 'unexpected contents of a new circuit %r: %r' % (s, st))
                return
        last = [snap(c) for c in ccts]
        seen = set()
        with np.errstate(all='ignore'):
            for n, op in enumerate(plan['hist']):
                if not self.step(run, n, op, plan, ccts, models, locked, last, seen):
                    return
        run.state = repr(sorted(seen))

    def step(self, run, n, op, plan, ccts, models, locked, last, seen):
        k, ci = op['op'], op['c']
        c, m = ccts[ci], models[ci]
        pre = last[ci]
        pred = ('read',)
        if k in SETTERS:
            pred = m.predict(op, pre, locked[ci])
            if pred[0] == 'skip' or (k == 'attr' and locked[ci]):
                return True
        if locked[ci]:
            run.nontrivial = True
        out, value = 'ok', None
        it = op.get('int')
        st = Stepper(it[0], KeyboardInterrupt('injected') if it[1] == 'KeyboardInterrupt' else MemoryError('injected'), opcodes=it[2]) if it else Stepper()
        try:
            with st:
                value = self.act(run, op, c)
        except (KeyboardInterrupt, MemoryError) as e:
            if not st.fired:
                raise
            out = 'interrupted'
        except Exception as e:
            out = 'failed'
            exc = e
        run.steps += st.n
        if st.fired:
            run.fault('interrupt')
            run.probe('interrupt-in-' + k)
        if k in ('lock', 'unlock'):
            if out != 'ok':
                raise exc
            locked[ci] = (k == 'lock')
            run.fault('lock' if locked[ci] else 'unlock')
        run.event(n, k, ci, out, locked[ci], st.n)
        seen.add((k, out, locked[ci]))
        now = [snap(x) for x in ccts]
        for j in range(len(ccts)):
            d = diff(last[j], now[j])
            if j != ci and d:
                run.violate('other-circuit-changed', '%s of circuit %d changed circuit %d at %r' % (k, ci, j, d))
                return False
        d = diff(pre, now[ci])
        what = 'operation %d %r (circuit %r, locked=%s)' % (n, {a: b for a, b in op.items() if a != 'int'}, plan['ccts'][ci], locked[ci])
        if k not in SETTERS:
            if d:
                run.violate('changed-by-' + k, '%s [%s] changed %r' % (what, out, d))
                return False
            if out == 'failed' and k not in ('badnew',) and not (k == 'calc' and op['fail']) and not (k == 'read' and value is None and (
                    m.vgap is None or m.rn is None or op['f'] > m.nf or op['p'] > m.np)) and not st.fired:
                if k == 'calc' and isinstance(exc, (np.linalg.LinAlgError, AssertionError, ZeroDivisionError, ValueError)) and not locked[ci]:
                    pass           # unset or unusable circuit
                elif k == 'calc' and locked[ci] and self.calc_fails_unlocked(op, c):
                    pass
                elif k == 'print':
                    run.violate('print-failed', '%s: %r' % (what, exc))
                    return False
                else:
                    run.violate('failed-' + k, '%s: %r' % (what, exc))
                    return False
            if out == 'ok' and not self.check_read(run, op, c, m, pre, value, what):
                return False
            last[:] = now
            return True
        # ---- settings
        if out == 'ok' and st.fired and pred[0] == 'fail':
            pass
        if pred[0] == 'fail':
            if out == 'ok' and not (k == 'name' and locked[ci]):
                run.violate('invalid-setting-accepted', '%s did not fail; changed %r' % (what, d))
                return False
            run.fault('invalid-setting')
            if d:
                run.violate('failed-setting-changed', '%s [%s] changed %r' % (what, out, d))
                return False
        else:
            _, key, idx, val, exact = pred
            if locked[ci] and k == 'name' and out == 'failed':
                pass
            elif out == 'failed':
                run.violate('valid-setting-rejected', '%s: %r' % (what, exc))
                return False
            if set(d) - {(key, idx)}:
                run.violate('setting-changed-more', '%s [%s] changed %r' % (what, out, d))
                return False
            have = now[ci][key][idx[0]][idx[1]] if key == 'comment' else now[ci][key][idx[0]] if key == 'misc' else now[ci][key][2][idx]
            ok = have == val if key == 'misc' else near(have, val, 0 if exact else 1e-11)
            if k == 'attr' and ok:
                setattr(m, op['a'], op['x'])
            if out == 'ok' and not ok:
                run.violate('wrong-value', '%s: %s%r is %r, expected %r' % (what, key, idx, have, val))
                return False
            if out == 'interrupted' and d and not ok:
                run.violate('half-applied', '%s: interrupted, %s%r is %r, neither the old value nor %r' % (what, key, idx, have, val))
                return False
        last[:] = now
        # every unit reads back what the model says
        if not self.read_all(run, op, c, m, now[ci], what):
            return False
        return True

    def act(self, run, op, c):
        k = op['op']
        if k in SETTERS:
            return call(c, op)
        if k == 'lock':
            return c.lock()
        if k == 'unlock':
            return c.unlock()
        if k == 'read':
            return c.available_power(op['f'], op['p'], 'nW')
        if k == 'vj':
            return c.initialize_vj()
        if k == 'print':
            return c.print_info()
        if k == 'save':
            return c.save_info(os.path.join(os.getcwd(), 'c.txt'))
        if k == 'badnew':
            from qmix.circuit import EmbeddingCircuit
            return EmbeddingCircuit(**op['kw'])
        if k == 'calc':
            return self.calc(op, c, op['fail'])

    def calc(self, op, c, fail):
        from qmix.harmonic_balance import harmonic_balance
        from qmix.qtcurrent import qtcurrent
        r = SimResp(calls={'all': [fail, 0]} if fail else None)
        nb = 2 if c.num_f <= 2 else 1
        if op['hb']:
            return harmonic_balance(c, r, nb, max_it=1, verbose=False)
        vj = c.initialize_vj() + 0.1
        return qtcurrent(vj, c, r, [0.], nb, verbose=False)

    def calc_fails_unlocked(self, op, c):
        import copy
        c2 = self.twin(c)
        try:
            self.calc(op, c2, op['fail'])
        except Exception:
            return True
        return False

    def twin(self, c):
        from qmix.circuit import EmbeddingCircuit
        c2 = EmbeddingCircuit(c.num_f, c.num_p, vb_npts=c.vb_npts, fgap=c.fgap, vgap=c.vgap, rn=c.rn, name=c.name)
        c2.freq[:], c2.vt[:], c2.zt[:], c2.vb[:] = c.freq, c.vt, c.zt, c.vb
        return c2

    def check_read(self, run, op, c, m, st, value, what):
        k = op['op']
        if k == 'badnew':
            run.violate('invalid-circuit-accepted', '%r was accepted' % (op['kw'],))
            return False
        if k == 'vj':
            if value.shape != (m.nf + 1, m.np + 1, c.vb_npts) or value.any() or value.dtype != complex:
                run.violate('initialize_vj', 'unexpected %s %s' % (value.shape, value.dtype))
                return False
            value += 1.0
            if c.initialize_vj().any():
                run.violate('initialize_vj', 'not a fresh array')
                return False
        if k == 'calc' and c.freq.flags.writeable is False and not op['fail']:
            run.probe('calculation-with-locked-circuit')
            try:
                want = self.calc(op, self.twin(c), '')
            except Exception as e:
                run.violate('locked-calculation', '%s: unlocked twin fails with %r' % (what, e))
                return False
            if not np.array_equal(np.asarray(value), np.asarray(want), equal_nan=True):
                run.violate('locked-calculation', '%s: result differs from that of an unlocked twin' % what)
                return False
        return self.read_all(run, op, c, m, st, what)

    def read_all(self, run, op, c, m, st, what):
        f, p = op['f'], op['p']
        if c.vph is not c.freq and not np.array_equal(c.vph, c.freq, equal_nan=True):
            run.violate('vph', 'photon voltage differs from frequency')
            return False
        if f > m.nf or p > m.np:
            return True
        for u in list(POW) + ['dBm', 'dBW']:
            if m.vgap is None or m.rn is None:
                try:
                    c.available_power(f, p, u)
                except Exception:
                    continue
                run.violate('power-without-gap', '%s: available_power works without gap or resistance' % what)
                return False
            got, want = c.available_power(f, p, u), m.power(st, f, p, u)
            if not near(got, want, 1e-9) and not (u.startswith('dB') and abs(got - want) < 1e-7):
                run.violate('power-read-back', 'after %s: available power is %r %s, expected %r' % (what, got, u, want))
                return False
        return True

    def shrink(self, plan):
        h = plan['hist']
        if len(h) > 4:
            for a, b in ((0, len(h) // 2), (len(h) // 2, len(h))):
                yield dict(plan, hist=h[a:b])
        for k in range(len(h)):
            yield dict(plan, hist=h[:k] + h[k + 1:])
        for k, o in enumerate(h):
            if o.get('int'):
                yield dict(plan, hist=h[:k] + [{a: b for a, b in o.items() if a != 'int'}] + h[k + 1:])
            if o.get('ty'):
                yield dict(plan, hist=h[:k] + [{a: b for a, b in o.items() if a != 'ty'}] + h[k + 1:])
        if len(plan['ccts']) > 1 and all(o['c'] == 0 for o in h):
            yield dict(plan, ccts=plan['ccts'][:1])
