"""Simulated SIS junction on the bench: what an instrument would record.

Everything is a closed formula of a JSON-able spec, independent of QMix.
"""
import numpy as np
from scipy import special

VU = {'uV': 1e-6, 'mV': 1e-3, 'V': 1.}
IU = {'uA': 1e-6, 'mA': 1e-3, 'A': 1.}


def junction(rng):
    return dict(vgap=round(rng.uniform(2.6e-3, 2.9e-3), 6), rn=round(rng.uniform(8, 20), 2), rsg=round(rng.uniform(150, 500), 1),
                a=rng.choice([3e4, 4e4, 6e4]), vo=round(rng.uniform(-1.5e-4, 1.5e-4), 6), io=round(rng.uniform(-3e-6, 3e-6), 8),
                noise=rng.choice([0., 1e-8, 5e-8]), seed=rng.randrange(1 << 30))


def current(j, v):
    """unpumped I-V curve, A"""
    v = np.asarray(v, dtype=float)
    e = lambda x: 1 / (1 + np.exp(-np.clip(x, -500, 500)))
    g, a = j['vgap'], j['a']
    return (v / j['rsg'] * e(-a * (v - g)) * e(a * (v + g)) + v / j['rn'] * (e(a * (v - g)) + e(-a * (v + g))))


def pumped(j, v, freq_ghz, alpha):
    vph = 6.62607015e-34 * freq_ghz * 1e9 / 1.602176634e-19
    return sum(special.jv(n, alpha) ** 2 * current(j, np.asarray(v) + n * vph) for n in range(-12, 13))


def _noise(j, n, k):
    return np.random.RandomState((j['seed'] + k) % (1 << 31)).randn(n)


def iv_samples(j, n=801, vmax=5.6e-3, pump=None, k=0):
    """one clean upward sweep, SI units, offsets as the instrument would add them; distinct voltages"""
    v = np.linspace(-vmax, vmax, n)
    if j.get('jitter'):
        v = v + np.random.RandomState((j['seed'] + 7 + k) % (1 << 31)).uniform(-.3, .3, n) * (v[1] - v[0])
    i = current(j, v) if pump is None else pumped(j, v, *pump)
    i = i + j['noise'] * _noise(j, n, k)
    return v + j['vo'], i + j['io']


def if_samples(j, kind, n=601, vmax=5.6e-3, freq=230., k=0):
    """IF power, arbitrary units: kind 'dc', 'hot', 'cold'"""
    v = np.linspace(0, vmax, n)
    vph = 6.62607015e-34 * freq * 1e9 / 1.602176634e-19
    g = j['vgap']
    shot = 5.8e3 * np.maximum(v, 0) * (1 / (1 + np.exp(-(v - g) / 3e-5)))
    base = 6.0 + shot
    if kind != 'dc':
        t = 293. if kind == 'hot' else 78.
        gain = 0.12 * np.exp(-((v - (g - vph / 2)) / (vph / 3)) ** 2)
        base = base + gain * (t + 40)
    p = base * (1 + 1e-3 * _noise(j, n, 3 + k + len(kind))) * 0.02
    return v + j['vo'], p


def matrix(v, y, v_fmt='mV', i_fmt=None):
    return np.column_stack((v / VU[v_fmt], y / IU[i_fmt] if i_fmt else y))
