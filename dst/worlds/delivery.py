"""C11 / C12: a simulated acquisition channel between the junction and QMix.

The channel takes the clean samples of one measurement and delivers them with
faults: lost readings (NaN rows), readings and whole buffers sent twice,
sweep direction, round trips, reordering (IF), unit of the read-out, memory
layout of the buffer.  Oracle: the clean delivery of the same samples, on the
same tree.
"""
import os

import numpy as np

from .. import core, meas, ops
from ..core import World

VF, IF_ = list(meas.VU), list(meas.IU)
LAYOUTS = ['C', 'F', 'strided', 'neg', 'ro', 'memmap', 'sub', 'be', 'T', 'cols', 'int']


class Buffer(np.ndarray):
    """what an instrument driver may return: an ndarray subclass"""

    def __new__(cls, x, port='GPIB0'):
        o = np.asarray(x).view(cls)
        o.port = port
        return o

    def __array_finalize__(self, o):
        self.port = getattr(o, 'port', None)


def layout(x, kind, run, tag=''):
    x = np.asarray(x)
    if kind == 'C':
        return np.ascontiguousarray(x)
    run.fault('layout-' + kind)
    if kind == 'F':
        return np.asfortranarray(x)
    if kind == 'strided':
        b = np.full((2 * x.shape[0] + 1, 2 * x.shape[1] + 1), -7e7, dtype=x.dtype)
        b[1::2, 1::2] = x
        return b[1::2, 1::2]
    if kind == 'neg':
        return np.ascontiguousarray(x[::-1, ::-1])[::-1, ::-1]
    if kind == 'ro':
        x = np.array(x)
        x.flags.writeable = False
        return x
    if kind == 'memmap':
        p = os.path.join(os.getcwd(), 'buf%s.bin' % tag)
        np.ascontiguousarray(x).tofile(p)
        return np.memmap(p, dtype=x.dtype, mode='r' if x.size % 2 else 'c', shape=x.shape)
    if kind == 'sub':
        return Buffer(np.array(x))
    if kind == 'be':
        return x.astype(x.dtype.newbyteorder('>'))
    if kind == 'T':
        return np.ascontiguousarray(x.T).T
    if kind == 'cols':          # two columns of a wider table
        b = np.zeros((x.shape[0], 5))
        b[:, 3], b[:, 1] = x[:, 0], x[:, 1]
        return b[:, 3:0:-2]
    if kind == 'int':
        return x.astype(np.int64) if np.isfinite(x).all() and (x == np.round(x)).all() else np.ascontiguousarray(x)
    raise ValueError(kind)


def deliver(rows, ev, run):
    """apply channel events in order"""
    for e in ev:
        n = len(rows)
        k = e[1] % (n + 1)
        if e[0] == 'nan':
            bad = rows[min(k, n - 1)].copy()
            bad[{0: [0], 1: [1], 2: slice(None)}[e[2]]] = np.nan
            rows = np.concatenate((rows[:k], np.repeat(bad[None], e[3], 0), rows[k:]))
        elif e[0] == 'rep':
            k = k % n
            rows = np.concatenate((rows[:k], np.repeat(rows[k:k + 1], 1 + e[2], 0), rows[k + 1:]))
        elif e[0] == 'chunk':       # a buffer is sent twice
            k = k % n
            rows = np.concatenate((rows[:k + e[2]], rows[k:k + e[2]], rows[k + e[2]:]))
        elif e[0] == 'move':        # a buffer arrives late
            k = k % n
            c, rest = rows[k:k + e[2]], np.concatenate((rows[:k], rows[k + e[2]:]))
            d = e[3] % (len(rest) + 1)
            rows = np.concatenate((rest[:d], c, rest[d:]))
        elif e[0] == 'reverse':
            rows = rows[::-1]
        elif e[0] == 'shuffle':
            rows = rows[np.random.RandomState(e[1]).permutation(n)]
        run.fault('channel-' + e[0])
    return rows


def gen_events(rng, kinds, lo=0):
    out = []
    for _ in range(rng.pick({0: 1, 1: 2, 2: 3, 4: 2, 9: 1}) + lo):
        k = rng.choice(kinds)
        pos = rng.choice([0, -1, rng.randrange(5000), rng.randrange(5000), rng.randrange(5000)])
        if k == 'nan':
            out.append(['nan', pos, rng.randrange(3), rng.choice([1, 1, 2, 7, 60])])
        elif k == 'rep':
            out.append(['rep', pos, rng.choice([1, 1, 2, 5])])
        elif k == 'chunk':
            out.append(['chunk', pos, rng.choice([2, 16, 64])])
        elif k == 'move':
            out.append(['move', pos, rng.choice([1, 2, 16, 100]), rng.randrange(5000)])
        elif k == 'reverse':
            out.append(['reverse', 0])
        elif k == 'shuffle':
            out.append(['shuffle', rng.randrange(1 << 20)])
    return out


_real = {}


def real(name):
    if name not in _real:
        from .. import boot
        d = np.genfromtxt(os.path.join(boot.REPO, 'tests', 'exp-data', name), delimiter=',', skip_header=1, usecols=(0, 1))
        _real[name] = d * [1e-3, 1.]
    return _real[name]


REALS = {'iv': ['dciv-data.csv'], 'pumped': ['f230_0_iv.csv'], 'if': ['dcif-data.csv'], 'hot': ['f230_0_hot.csv'], 'cold': ['f230_0_cold.csv']}


def samples(src, what):
    """clean samples (SI voltage, raw second column), distinct ascending voltages"""
    if src['kind'] == 'real':
        x = real(REALS[what][0])
        x = x[np.isfinite(x).all(axis=1)]
        if what in ('iv', 'pumped'):
            x = x * [1., 1e-3]
        x = x[::src['step']]
    else:
        j = src['j']
        if what in ('iv', 'pumped'):
            v, i = meas.iv_samples(j, src['n'], src['vmax'], pump=tuple(src['pump']) if what == 'pumped' else None, k=what == 'pumped')
        else:
            v, i = meas.if_samples(j, {'if': 'dc'}.get(what, what), src['n'], freq=src['pump'][0],
                                   k=0)
        x = np.column_stack((v, i))
        if src.get('uni') and what in ('iv', 'pumped'):
            x = x[len(x) // 2:] if src['uni'] > 0 else x[:len(x) // 2 + 1]
    return ascending(x)


def ascending(x):
    x = x[np.argsort(x[:, 0], kind='stable')]
    return x[np.concatenate(([True], np.diff(x[:, 0]) > 0))]


def in_units(x, u0, u1):
    return np.column_stack((x[:, 0] / u0, x[:, 1] / u1 if u1 else x[:, 1]))


def gen_src(rng, n=(201, 401, 801)):
    if rng.chance(0.2):
        return dict(kind='real', step=rng.choice([1, 3, 10]))
    j = meas.junction(rng)
    if rng.chance(0.3):
        j['jitter'] = 1
    return dict(kind='syn', j=j, n=rng.choice(n), vmax=round(rng.uniform(5.0e-3, 6.2e-3), 5), pump=[rng.choice([210., 230., 345.]), round(rng.uniform(.3, 1.4), 2)])


# --------------------------------------------------------------------- C11
class DeliveryIV(World):
    id = 'delivery-iv'
    budget = {'quick': (1100, 150), 'thorough': (40000, 780)}
    rule = ('clean I-V samples (synthetic junction or the recorded data) pass a simulated channel with lost/repeated readings, repeated '
            'buffers, direction, round trips with hysteresis, units and memory layouts; results must equal those of the clean delivery; '
            'non-trivial: at least one channel fault')
    state_measure = 'distinct (importer, direction, set of channel faults, unit, layout)'
    real = ['qmix.exp.iv_data', 'qmix.exp.clean_data', 'qmix.exp.exp_data.DCData/PumpedData', 'qmix.respfn', 'scipy']
    stubs = ['instrument and acquisition channel', 'terminal']
    assumptions = ['repeated readings are exact repeats; lost readings are additional NaN rows (the reading is retried)',
                   'array subtypes: memory maps, ndarray subclasses that behave like arrays, other byte order, integers (not numpy.matrix)',
                   'on a round trip only the legs away from the start carry the curve (documented); other legs may show hysteresis',
                   'different units of the same samples differ by rounding: compared with a tolerance']

    def gen(self, rng, tier):
        op = rng.pick({'dciv': 6, 'iv': 5, 'DCData': .5, 'Pumped': .4, 'clean': 2, 'unusable': 1.2})
        src = gen_src(rng)
        plan = dict(op=op, src=src, vu=rng.choice(VF), iu=rng.choice(IF_), lay=rng.choice(LAYOUTS + ['C'] * 4))
        if src['kind'] == 'syn' and rng.chance(0.2):
            src['uni'] = rng.choice([1, 1, -1]) if op in ('iv', 'clean') else 1
        plan['dir'] = rng.pick({'up': 2, 'down': 2, 'pos': 3, 'neg': 3})
        hyst = plan['dir'] in ('pos', 'neg') and rng.chance(0.5)
        plan['hyst'] = round(rng.uniform(1e-6, 3e-5), 7) if hyst else 0
        kinds = ['nan', 'nan', 'rep', 'rep'] + ([] if hyst else ['chunk'])
        if op == 'clean':
            kinds += ['move', 'shuffle', 'reverse']
        plan['ev'] = gen_events(rng, kinds)
        if plan['lay'] == 'int':
            plan.update(vu='uV', iu='uA', round=1, ev=[e for e in plan['ev'] if e[0] != 'nan'])
        kw = dict(npts=rng.choice([1501, 2001]), vmax=rng.choice([5.0e-3, 6e-3]))
        if rng.chance(0.4):
            kw['vrn'] = [3.5e-3, 4.8e-3]
        ops.ivkw(rng, kw)
        if rng.chance(0.1):
            kw['vgap'] = 2.75e-3
        if op in ('DCData', 'Pumped'):
            kw.pop('filter_data', None)
        plan['kw'] = kw
        plan['cross'] = rng.chance(0.25)
        if op == 'unusable':
            plan['bad'] = rng.choice(['nanv', 'nani', 'alternate', 'empty', 'all'])
            plan['on'] = rng.choice(['dciv', 'iv', 'DCData', 'Pumped'])
            plan['lay'] = rng.choice(['C', 'F', 'strided', 'ro'])
        if op in ('Pumped',) or plan.get('on') == 'Pumped':
            plan['kw2'] = dict(npts=1501, freq=src['pump'][0] if src['kind'] == 'syn' else 230., analyze_iv=rng.chance(0.1), analyze_if=False,
                               num_b=9, verbose=rng.chance(0.3), ifdata_npts=300)
        return plan

    def channel(self, clean, plan, run):
        n = len(clean)
        k = int(np.abs(clean[:, 0]).argmin())
        d = plan['dir']
        h = np.array([0., plan['hyst'] / meas.IU[plan['iu']]])
        if d == 'up':
            rows = clean
        elif d == 'down':
            rows = clean[::-1]
        else:
            away1, back1 = clean[k:], clean[::-1][1:n - k]           # k..n-1, n-2..k
            away2, back2 = clean[:k][::-1], clean[1:k + 1]            # k-1..0, 1..k
            j1, j2 = back1.copy(), back2.copy()
            if len(j1) > 1:
                j1[:-1] -= h
            if len(j2) > 1:
                j2[:-1] += h
            if d == 'pos':
                rows = np.concatenate((away1, j1, away2, j2))
            else:
                # negative first: k..0, 1..k, k+1..n-1, n-2..k
                rows = np.concatenate((clean[:k + 1][::-1], j2, clean[k + 1:], j1))
        if d != 'up':
            run.fault('sweep-' + d)
        if plan['hyst'] and (h != 0).any():
            run.fault('hysteresis')
        return deliver(rows, plan['ev'], run)

    def importer(self, plan, x, vu, iu, dc, base):
        kw = dict(plan['kw'], v_fmt=vu, i_fmt=iu)
        op = plan.get('on', plan['op'])
        if op == 'dciv':
            from qmix.exp.iv_data import dciv_curve
            return dciv_curve(x, **kw)
        if op == 'iv':
            from qmix.exp.iv_data import iv_curve
            return iv_curve(x, dc, **kw)
        from qmix.exp import DCData, PumpedData
        if op == 'DCData':
            return DCData(x, **dict(kw, verbose=False))
        return PumpedData(x, base, None, None, **dict(plan['kw2'], v_fmt=vu, i_fmt=iu))

    def execute(self, plan, run):
        op = plan.get('on', plan['op'])
        what = 'pumped' if op in ('iv', 'Pumped') else 'iv'
        si = samples(plan['src'], what)
        vu, iu = plan['vu'], plan['iu']
        clean = in_units(si, meas.VU[vu], meas.IU[iu])
        if plan.get('round'):
            clean = ascending(np.round(clean) + 0.0)
            si = np.column_stack((clean[:, 0] * meas.VU[vu], clean[:, 1] * meas.IU[iu]))
        dc = base = None
        if op == 'iv':
            from qmix.exp.iv_data import dciv_curve
            s0 = {k: v for k, v in plan['src'].items() if k != 'uni'}
            dc = dciv_curve(in_units(samples(s0, 'iv'), 1e-3, 1e-3), npts=1501)[2]
        elif op == 'Pumped':
            from qmix.exp import DCData
            s0 = {k: v for k, v in plan['src'].items() if k != 'uni'}
            base = DCData(in_units(samples(s0, 'iv'), 1e-3, 1e-3), npts=1501, verbose=False)
        run.state = '%s %s %s %s %s' % (plan['op'], plan['dir'], sorted({e[0] for e in plan['ev']}), vu, plan['lay'])
        if plan['op'] == 'clean':
            return self.clean_ops(plan, clean, run)
        if plan['op'] == 'unusable':
            return self.unusable(plan, clean, dc, base, run)
        want = ops.result_of2(lambda: self.importer(plan, np.ascontiguousarray(clean), vu, iu, dc, base))
        x = layout(self.channel(clean, plan, run), plan['lay'], run)
        run.event(plan['op'], len(clean), x.shape, str(x.dtype), plan['lay'], plan['dir'], vu, iu, plan['ev'])
        got = ops.result_of2(lambda: self.importer(plan, x, vu, iu, dc, base))
        if want[0] != 'ok':
            run.probe('clean-delivery-rejected')
            if got[0] == 'ok':
                run.violate('accepted', 'the clean delivery is rejected with %s, the disturbed one is accepted' % want[1])
            return
        d = ops.same(want, got, 1e-9)
        if d:
            run.violate('delivery-' + plan['op'], 'clean / disturbed delivery %s (direction %s, hysteresis %s, layout %s, events %s)' % (
                d, plan['dir'], plan['hyst'], plan['lay'], plan['ev']))
            return
        if plan['cross'] and op in ('dciv', 'iv', 'DCData'):
            self.cross(plan, si, dc, base, want, run)

    def cross(self, plan, si, dc, base, want, run):
        """the other units"""
        op = plan['op']
        for u0, u1 in (('mV', 'mA'), ('uV', 'uA'), ('V', 'A'), ('mV', 'uA')):
            if (u0, u1) == (plan['vu'], plan['iu']):
                continue
            r = self.importer(plan, in_units(si, meas.VU[u0], meas.IU[u1]), u0, u1, dc, base)
            w = self.importer(plan, in_units(si, meas.VU[plan['vu']], meas.IU[plan['iu']]), plan['vu'], plan['iu'], dc, base)
            run.fault('unit-change')
            if op == 'dciv':
                a, b = w[2], r[2]
            elif op == 'DCData':
                a, b = w, r
            else:
                a = b = None
                x, y = w[1], r[1]
                if not np.allclose(w[0], r[0], rtol=1e-9) or np.nanmax(np.abs(x - y)) > 1e-3 * max(1., np.nanmax(np.abs(x))):
                    run.violate('units-' + op, 'pumped curve in %s,%s and %s,%s differs by %g' % (
                        plan['vu'], plan['iu'], u0, u1, np.nanmax(np.abs(x - y))))
                    return
            if a is not None:
                if not 1e-3 < a.vgap < 5e-3 or not 1 < a.rn < 100:
                    run.probe('properties-not-found')
                    return
                # the offset and gap searches are chaotic in the last bit of
                # the samples (DESIGN.md): only a wrong factor is an error
                bad = [(k, getattr(a, k), getattr(b, k)) for k, t in (('rn', 1.1), ('vgap', 8.))
                       if not 1 / t <= getattr(a, k) / getattr(b, k) <= t]
                if bad:
                    run.violate('units-' + op, 'in %s,%s and %s,%s: %s' % (plan['vu'], plan['iu'], u0, u1, bad))
                    return

    def clean_ops(self, plan, clean, run):
        from qmix.exp import clean_data as C
        x = layout(self.channel(clean, dict(plan, hyst=0), run), plan['lay'], run)
        run.event('clean', x.shape, plan['lay'], plan['ev'])
        r = C.clean_matrix(x)
        if r.shape != clean.shape or not np.array_equal(np.asarray(r, dtype=float), clean):
            run.violate('clean_matrix', 'shape %s, expected the %s clean samples (%s)' % (r.shape, clean.shape, plan['ev']))
            return
        a, b = C.clean_xy(x[:, 0], x[:, 1])
        if a.shape != clean[:, 0].shape or not np.array_equal(a, clean[:, 0]) or not np.array_equal(b, clean[:, 1]):
            run.violate('clean_xy', 'differs from the clean samples (%s)' % plan['ev'])
            return
        m = C.xy_to_matrix(a, b)
        p, q = C.matrix_to_xy(m)
        if not np.array_equal(m, clean) or not np.array_equal(p, a) or not np.array_equal(q, b):
            run.violate('xy_matrix', 'conversion changes the samples')

    def unusable(self, plan, clean, dc, base, run):
        x = self.channel(clean, dict(plan, ev=plan['ev']), run).copy()
        b = plan['bad']
        if b == 'nanv':
            x[:, 0] = np.nan
        elif b == 'nani':
            x[:, 1] = np.nan
        elif b == 'alternate':
            x[::2, 0], x[1::2, 1] = np.nan, np.nan
        elif b == 'empty':
            x = x[:0]
        else:
            x[:] = np.nan
        run.fault('no-usable-data')
        run.event('unusable', plan['on'], b)
        x = layout(x, plan['lay'], run)
        try:
            r = self.importer(plan, x, plan['vu'], plan['iu'], dc, base)
        except Exception as e:
            run.probe('rejected-' + type(e).__name__)
            return
        run.violate('unusable-accepted', '%s of a sweep without usable data (%s) gives %s' % (plan['on'], b, str(ops.norm(r))[:300]))

    def shrink(self, plan):
        for k in range(len(plan['ev'])):
            yield dict(plan, ev=plan['ev'][:k] + plan['ev'][k + 1:])
        if plan['lay'] != 'C':
            yield dict(plan, lay='C')
        if plan['hyst']:
            yield dict(plan, hyst=0)
        if plan['dir'] != 'up':
            yield dict(plan, dir='up', hyst=0)
        if plan.get('cross'):
            yield dict(plan, cross=False)
        for k in plan['kw']:
            if k not in ('npts', 'vmax'):
                yield dict(plan, kw={a: b for a, b in plan['kw'].items() if a != k})
        if (plan['vu'], plan['iu']) != ('mV', 'mA') and not plan.get('round'):
            yield dict(plan, vu='mV', iu='mA')
        if plan['src']['kind'] == 'syn' and plan['src']['n'] > 101:
            yield dict(plan, src=dict(plan['src'], n=101))
        for k, e in enumerate(plan['ev']):
            if e[0] == 'nan' and e[3] > 1:
                yield dict(plan, ev=plan['ev'][:k] + [e[:3] + [1]] + plan['ev'][k + 1:])
            if e[1] not in (0, 1):
                yield dict(plan, ev=plan['ev'][:k] + [[e[0], 0] + e[2:]] + plan['ev'][k + 1:])


# --------------------------------------------------------------------- C12
class DeliveryIF(World):
    id = 'delivery-if'
    budget = {'quick': (1600, 150), 'thorough': (60000, 780)}
    rule = ('clean IF samples (no LO, hot, cold, spectra) pass independent simulated channels with lost/repeated/late readings and buffers, '
            'units and memory layouts; results must equal those of the clean delivery; non-trivial: at least one channel fault')
    state_measure = 'distinct (importer, set of channel faults per channel, unit, layouts)'
    real = ['qmix.exp.if_data', 'qmix.exp.if_response', 'qmix.exp.clean_data', 'qmix.exp.exp_data.DCData/PumpedData', 'scipy']
    stubs = ['instrument and acquisition channels', 'terminal']
    assumptions = ['repeated readings are exact repeats; lost readings are additional NaN rows (the reading is retried)',
                   'spectra: rows are judged per frequency in the order delivered, a lost reading only affects its own row',
                   'array subtypes: memory maps, ndarray subclasses that behave like arrays, other byte order, integers (not numpy.matrix)']

    def gen(self, rng, tier):
        op = rng.pick({'dcif': 5, 'if': 7, 'spec': 3, 'DCData': .4, 'Pumped': .8})
        src = gen_src(rng, (101, 301, 601))
        kinds = ['nan', 'nan', 'rep', 'chunk', 'move', 'move', 'reverse', 'shuffle']
        plan = dict(op=op, src=src, vu=rng.choice(VF), ch={})
        for c in {'dcif': ['if'], 'if': ['hot', 'cold'], 'spec': ['spec'], 'DCData': ['if'], 'Pumped': ['hot', 'cold']}[op]:
            plan['ch'][c] = dict(ev=gen_events(rng, kinds), lay=rng.choice(LAYOUTS + ['C'] * 4))
        if rng.chance(0.12) and op != 'spec':
            plan['round'] = 1
            plan['vu'] = 'uV'
            for c in plan['ch'].values():
                c['lay'] = 'int'
                c['ev'] = [e for e in c['ev'] if e[0] != 'nan']
        elif op in ('if', 'Pumped') and rng.chance(0.3):
            plan['sub'] = [rng.randint(1, 3), rng.randint(1, 3)]       # hot and cold sampled on different grids
        kw = dict(ifdata_npts=rng.choice([300, 400]), verbose=rng.chance(0.3), vmax=rng.choice([5.2e-3, 6e-3]))
        if rng.chance(0.6):
            kw['vshot'] = rng.choice([[4.5e-3, 5.2e-3], [[4.2e-3, 4.6e-3], [4.8e-3, 5.3e-3]]])
        if rng.chance(0.3):
            kw['rseries'] = 1.0
        if rng.chance(0.3):
            kw['ifdata_sigma'] = rng.choice([3e-5, 2.0, None])
        if rng.chance(0.2):
            kw['v_multiplier'] = 1.01
        if op in ('if', 'Pumped'):
            kw['freq'] = 230.
            if rng.chance(0.3):
                kw['best_pt'] = 'Min Tn'
            if rng.chance(0.3):
                kw['vbest'] = 2.2e-3
            if rng.chance(0.3):
                kw['t_hot'] = 300.
            plan['dcif'] = rng.chance(0.5)
        if op == 'spec':
            kw = dict(ifresp_maxtn=rng.choice([1e6, 500.]), t_hot=rng.choice([293., 300.]), t_cold=78.)
            plan['npt'] = rng.choice([4, 20, 201])
            plan['sseed'] = rng.randrange(1 << 20)
            plan['real'] = rng.chance(0.2)
        plan['kw'] = kw
        plan['cross'] = rng.chance(0.2)
        return plan

    def clean(self, plan, what, vu=None):
        if what == 'spec':
            if plan.get('real'):
                from .. import boot
                return np.genfromtxt(os.path.join(boot.REPO, 'tests', 'exp-data', 'f230_spectrum.dat'), skip_header=1)
            rs = np.random.RandomState(plan.get('sseed', 3))
            n = plan.get('npt', 20)
            f = np.linspace(1, 9, n)
            return np.column_stack((f, -40 + rs.randn(n), -42 + rs.randn(n)))
        s = samples(plan['src'], what)
        u = meas.VU[vu or plan['vu']]
        if plan.get('round'):
            x = in_units(s, 1e-6, 1e-4)
            x = ascending(np.round(x) + 0.0)
            return x if not vu else in_units(x, meas.VU[vu] / 1e-6, None)
        if plan.get('sub') and what in ('hot', 'cold'):
            s = s[::plan['sub'][what == 'cold']]
        return in_units(s, u, None)

    def importer(self, plan, X, vu, dc, base, dcif):
        op, kw = plan['op'], dict(plan['kw'], v_fmt=vu)
        if op == 'dcif':
            from qmix.exp.if_data import dcif_data
            return dcif_data(X['if'], dc, **kw)
        if op == 'if':
            from qmix.exp.if_data import if_data
            return if_data(X['hot'], X['cold'], dc, **(dict(kw, dcif=dcif) if dcif is not None else kw))
        if op == 'spec':
            from qmix.exp.if_response import if_response
            kw.pop('v_fmt')
            return if_response(X['spec'], **kw)
        from qmix.exp import DCData, PumpedData
        if op == 'DCData':
            s = in_units(samples(plan['src'], 'iv'), meas.VU[vu], 1e-3)
            kw.pop('v_multiplier', None)
            return DCData(s, X['if'], **dict(kw, npts=1501))
        s = in_units(samples(plan['src'], 'pumped'), meas.VU[vu], 1e-3)
        return PumpedData(s, base, X['hot'], X['cold'], **dict(kw, npts=1501, analyze_iv=False))

    def execute(self, plan, run):
        from qmix.exp.iv_data import dciv_curve
        op = plan['op']
        dc = base = dcif = None
        if op in ('dcif', 'if'):
            dc = dciv_curve(in_units(samples(plan['src'], 'iv'), 1e-3, 1e-3), npts=1501)[2]
            if plan.get('dcif'):
                from qmix.exp.if_data import dcif_data
                dcif = dcif_data(in_units(samples(plan['src'], 'if'), 1e-3, None), dc, ifdata_npts=300, verbose=False)[1]
        elif op == 'Pumped':
            from qmix.exp import DCData
            base = DCData(in_units(samples(plan['src'], 'iv'), 1e-3, 1e-3), in_units(samples(plan['src'], 'if'), 1e-3, None) if plan.get('dcif') else None,
                          npts=1501, ifdata_npts=300, verbose=False)
        vu = plan['vu']
        clean = {c: self.clean(plan, c) for c in plan['ch']}
        want = ops.result_of2(lambda: self.importer(plan, {c: np.ascontiguousarray(x) for c, x in clean.items()}, vu, dc, base, dcif))
        X = {}
        for c, d in plan['ch'].items():
            rows = deliver(clean[c], d['ev'], run)
            lay_ = d['lay'] if c != 'spec' or d['lay'] not in ('cols',) else 'C'
            X[c] = layout(rows, lay_, run, c)
        if op == 'spec':
            return self.spectrum(plan, clean['spec'], X['spec'], want, run)
        run.state = '%s %s %s' % (op, vu, [(c, sorted({e[0] for e in d['ev']}), d['lay']) for c, d in plan['ch'].items()])
        run.event(op, vu, [(c, x.shape, str(x.dtype)) for c, x in X.items()], plan['ch'])
        got = ops.result_of2(lambda: self.importer(plan, X, vu, dc, base, dcif))
        if want[0] != 'ok':
            run.probe('clean-delivery-rejected')
            if got[0] == 'ok':
                run.violate('accepted', 'the clean delivery is rejected with %s, the disturbed one is accepted' % want[1])
            return
        d = ops.same(want, got, 1e-9)
        if d:
            run.violate('delivery-' + op, 'clean / disturbed delivery %s (%s)' % (d, plan['ch']))
            return
        if plan['cross'] and op in ('dcif', 'if'):
            for u in VF:
                if u == vu:
                    continue
                run.fault('unit-change')
                r = self.importer(plan, {c: self.clean(plan, c, u) for c in plan['ch']}, u, dc, base, dcif)
                w = self.importer(plan, {c: np.ascontiguousarray(x) for c, x in clean.items()}, vu, dc, base, dcif)
                a, b = w[0], r[0]
                # linear interpolation on a slightly shifted grid: tiny differences
                cols = (0, 1) if op == 'dcif' else (0, 1, 2)
                for k in cols:
                    m = np.isfinite(a[:, k])
                    if m.any() and np.abs(a[m, k] - b[m, k]).max() > 1e-5 * np.abs(a[m, k]).max():
                        run.violate('units-' + op, 'column %d in %s and %s differs' % (k, vu, u))
                        return

    def spectrum(self, plan, clean, x, want, run):
        from qmix.exp.if_response import if_response
        run.state = 'spec %s %s' % (sorted({e[0] for e in plan['ch']['spec']['ev']}), plan['ch']['spec']['lay'])
        if want[0] != 'ok':
            raise RuntimeError('clean spectrum rejected: %r' % (want,))
        if len(x) == 3:
            return
        run.event('spec', x.shape, plan['ch'])
        ref = if_response(clean, **plan['kw'])
        t = np.asarray(x).T if plan.get('sseed', 0) % 3 == 0 else x
        got = if_response(t, **plan['kw'])
        if got.shape != (4, len(x)) or not np.array_equal(got[[0, 2, 3]], np.asarray(x, dtype=float).T, equal_nan=True):
            run.violate('delivery-spectrum', 'frequencies or powers are not those delivered')
            return
        idx = {tuple(r): k for k, r in enumerate(clean)}
        for k in range(len(x)):
            r = tuple(float(q) for q in x[k])
            if r in idx and not np.isclose(got[1, k], ref[1, idx[r]], rtol=1e-12):
                run.violate('delivery-spectrum', 'noise temperature at %g GHz: %r clean, %r as delivered' % (r[0], ref[1, idx[r]], got[1, k]))
                return
            if (r[1] != r[1] or r[2] != r[2]) and got[1, k] == got[1, k]:
                run.violate('delivery-spectrum', 'noise temperature %r made up for a lost reading' % got[1, k])
                return

    def shrink(self, plan):
        for c, d in plan['ch'].items():
            for k in range(len(d['ev'])):
                yield dict(plan, ch=dict(plan['ch'], **{c: dict(d, ev=d['ev'][:k] + d['ev'][k + 1:])}))
            if d['lay'] != 'C':
                yield dict(plan, ch=dict(plan['ch'], **{c: dict(d, lay='C')}))
            for k, e in enumerate(d['ev']):
                if e[0] == 'nan' and e[3] > 1:
                    yield dict(plan, ch=dict(plan['ch'], **{c: dict(d, ev=d['ev'][:k] + [e[:3] + [1]] + d['ev'][k + 1:])}))
        if plan.get('sub'):
            yield dict(plan, sub=None)
        if plan.get('cross'):
            yield dict(plan, cross=False)
        for k in plan['kw']:
            if k not in ('ifdata_npts', 'vmax', 'freq', 'ifresp_maxtn', 't_hot', 't_cold'):
                yield dict(plan, kw={a: b for a, b in plan['kw'].items() if a != k})
        if plan['vu'] != 'mV' and not plan.get('round'):
            yield dict(plan, vu='mV')
        if plan['src']['kind'] == 'syn' and plan['src']['n'] > 101:
            yield dict(plan, src=dict(plan['src'], n=101))
