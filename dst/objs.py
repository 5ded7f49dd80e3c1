"""Simulated response function and builders for circuits (from JSON-able specs)."""
import numpy as np

from .gen import circuit_values


class RespFailure(Exception):
    pass


class SimResp:
    """Response function supplied by the user: analytic, with faults.

    Deterministic garbage depends only on the voltage asked for (a damaged
    table); call-dependent faults depend on the call number.
    """

    def __init__(self, n=20, q=20., s=0.05, garbage=None, calls=None, clock=None, latency=0.0):
        self.n, self.q, self.s = n, q, s
        self.garbage = garbage or []      # [kind, lo, hi, value]
        self.calls = calls or {}          # call number -> [kind, value]
        self.clock = clock
        self.latency = latency
        self.ncalls = 0
        self.fired = []

    def clean(self, v):
        v = np.asarray(v, dtype=float)
        with np.errstate(all='ignore'):
            x = np.clip(2 * self.n * np.log(np.maximum(np.abs(v), 1e-30)), -700, 700)
        g = 1 / (1 + np.exp(-x))
        idc = v * g + v / self.q * (1 - g)
        s2 = self.s ** 2
        ikk = -(2 + v * 0.5 * np.log(((v - 1) ** 2 + s2) / ((v + 1) ** 2 + s2))) / np.pi
        return ikk + 1j * idc

    def table(self, v):
        out = self.clean(v)
        for kind, lo, hi, val in self.garbage:
            m = (lo <= v) & (v < hi)
            if kind == 'nan':
                out[m] = np.nan
            elif kind == 'inf':
                out[m] = np.inf
            else:
                out[m] += val * (1 + 1j)
        return out

    def __call__(self, v):
        self.ncalls += 1
        if self.clock is not None and self.latency:
            self.clock.advance(self.latency)
        out = self.table(v)
        f = self.calls.get(str(self.ncalls)) or self.calls.get('all')
        if f:
            self.fired.append(f[0])
            if f[0] == 'raise':
                raise RespFailure('response function failed')
            if f[0] == 'interrupt':
                raise KeyboardInterrupt('in response function')
            if f[0] == 'nan':
                out = out * np.nan
            elif f[0] == 'noise':
                out = out * (1 + f[1] * np.sin(1 + 7 * self.ncalls + np.arange(out.size).reshape(out.shape)))
        return out

    resp = __call__

    def idc(self, v):
        return self(v).imag

    def ikk(self, v):
        return self(v).real


def resp_spec(rng, garbage=0.0, calls=0.0, real=0.0):
    if rng.chance(real):
        return dict(kind=rng.choice(['poly', 'perfect', 'exp']), n=rng.choice([20, 50]))
    s = dict(kind='sim', n=rng.choice([10, 20, 30]), q=rng.choice([10, 20, 50]), s=rng.choice([0.05, 0.1]))
    if rng.chance(garbage):
        s['garbage'] = []
        for _ in range(rng.randint(1, 3)):
            lo = round(rng.uniform(-2, 2), 2)
            s['garbage'].append([rng.pick({'nan': 3, 'inf': 1, 'spike': 4}), lo, round(lo + rng.choice([0.01, 0.05, 0.3, 1.5]), 2),
                                 round(rng.uniform(-3, 3), 2)])
    if rng.chance(calls):
        s['calls'] = {rng.choice(['1', '2', '3', 'all']): [rng.choice(['raise', 'nan', 'noise', 'interrupt']), round(rng.uniform(0.001, 0.5), 3)]}
    return s


def build_resp(s, clock=None):
    if s['kind'] == 'sim':
        return SimResp(s['n'], s['q'], s['s'], s.get('garbage'), s.get('calls'), clock, s.get('latency', 0.0))
    import qmix.respfn as R
    if s['kind'] == 'poly':
        return R.RespFnPolynomial(s['n'], verbose=False)
    if s['kind'] == 'perfect':
        return R.RespFnPerfect(verbose=False)
    if s['kind'] == 'exp':
        return R.RespFnExponential(verbose=False)
    raise ValueError(s['kind'])


def hb_circuit(rng, max_cost=4e5, tones=None):
    """physically sensible circuit + num_b whose current calculation is affordable"""
    while True:
        nf = rng.pick(tones or {1: 5, 2: 5, 3: 2, 4: 1})
        np_ = rng.pick({1: 5, 2: 4, 3: 2} if nf < 3 else {1: 4, 2: 1})
        npts = rng.pick({1: 1, 2: 1, 3: 2, 5: 3, 9: 3, 15: 2, 40: .6, 101: .5, 256: .3})
        hi = rng.pick({9: 5, 16: .7, 24: .3}) if nf == 1 else {2: 6, 3: 4, 4: 2}[nf]
        nb = rng.randint(2, hi)
        if rng.chance(0.35):
            nb = [rng.randint(1, hi) for _ in range(nf)]
            if rng.chance(0.15):
                nb.append(rng.randint(1, max(nb)))     # a spare value (it must not widen the sums: truncation is not specified)
        m = np.prod([2 * b + 1 for b in (nb if isinstance(nb, list) else [nb] * nf)][:nf], dtype=float)
        combos = nf * np_
        if m * npts * combos * (2 * combos + 1) > max_cost:
            continue
        break
    style = rng.pick({'plain': 5, 'close': 2, 'harmonic': 2, 'intermod': 1})
    f0 = round(rng.uniform(0.1, 0.6), rng.choice([1, 2, 3, 6]))
    f0 = max(f0, 0.1)
    if style == 'close':
        freq = [f0 + 0.01 * k for k in range(nf)]
    elif style == 'harmonic':
        freq = [f0 * (k + 1) for k in range(nf)]
    elif style == 'intermod':
        freq = [f0, f0 + 0.05, f0 - 0.05, 0.05][:nf]
    else:
        freq = [round(rng.uniform(0.03, 0.8), rng.choice([2, 3, 5])) for _ in range(nf)]
    freq = [max(0.02, f) for f in freq]
    drive = rng.choice([0.05, 0.3, 0.8, 1.5])
    vt, zt = [], []
    for f in range(nf):
        r = []
        for p in range(np_):
            a = freq[f] * drive * rng.uniform(0.2, 1.2) if (f == 0 and p == 0) or rng.chance(0.6) else 0.0
            r.append([round(a, 4), round(a * rng.uniform(-0.5, 0.5), 4) if rng.chance(0.3) else 0.0])
        vt.append(r)
        zt.append([[round(rng.uniform(0.05, 1.2), 3), round(rng.uniform(-0.8, 0.8), 3)] if rng.chance(0.9) else [0.0, 0.0]
                   for p in range(np_)])
    if rng.chance(0.04):
        zt = [[[0.0, 0.0]] * np_ for _ in range(nf)]
    return dict(nf=nf, np=np_, npts=npts, vmin=0.0 if npts > 1 and rng.chance(0.7) else round(rng.uniform(-1, 1), 2),
                vmax=round(rng.uniform(1.0, 2.0), 2), freq=freq, vt=vt, zt=zt), nb


def tiny_circuit(rng):
    """one signal and few bias points: long iteration budgets are affordable"""
    n = rng.choice([1, 2, 4])
    return dict(nf=1, np=1, npts=n, vmin=round(rng.uniform(0, 1), 2), vmax=round(rng.uniform(1.0, 2.0), 2), freq=[round(rng.uniform(0.1, 0.6), 3)],
                vt=[[[round(rng.uniform(0.05, 1), 3), 0.0]]], zt=[[[round(rng.uniform(0.05, 1.2), 3), round(rng.uniform(-0.8, 0.8), 3)]]]), rng.randint(2, 6)


def build_circuit(s):
    from qmix.circuit import EmbeddingCircuit
    c = EmbeddingCircuit(s['nf'], s['np'], vb_min=s['vmin'], vb_max=s['vmax'], vb_npts=s['npts'], **s.get('kw', {}))
    for f in range(s['nf']):
        c.freq[f + 1] = s['freq'][f]
        for p in range(s['np']):
            c.vt[f + 1, p + 1] = complex(*s['vt'][f][p])
            c.zt[f + 1, p + 1] = complex(*s['zt'][f][p])
    if s.get('locked'):
        c.lock()
    return c


def num_b(nb):
    return tuple(nb) if isinstance(nb, list) else nb


def shrink_circuit(s):
    """simpler circuits"""
    if s['nf'] > 1:
        yield dict(s, nf=s['nf'] - 1, freq=s['freq'][:-1], vt=s['vt'][:-1], zt=s['zt'][:-1])
    if s['np'] > 1:
        yield dict(s, np=s['np'] - 1, vt=[r[:-1] for r in s['vt']], zt=[r[:-1] for r in s['zt']])
    if s['npts'] > 1:
        for n in {1, 2, s['npts'] // 2}:
            if 1 <= n < s['npts']:
                yield dict(s, npts=n)
    simple_v = [[[0.2, 0.0] for _ in r] for r in s['vt']]
    if s['vt'] != simple_v:
        yield dict(s, vt=simple_v)
    simple_z = [[[0.3, 0.0] for _ in r] for r in s['zt']]
    if s['zt'] != simple_z:
        yield dict(s, zt=simple_z)
    for k in ('locked', 'kw'):
        if s.get(k):
            yield {a: b for a, b in s.items() if a != k}
    simple_f = [round(0.3 + 0.05 * k, 2) for k in range(s['nf'])]
    if s['freq'] != simple_f:
        yield dict(s, freq=simple_f)
