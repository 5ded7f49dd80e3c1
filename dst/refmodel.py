"""Independent reference models (plain NumPy, no QMix code)."""
import itertools

import numpy as np
from scipy.special import jv

MIN_VT = 1e-10


def nb_tuple(num_b, nf):
    return tuple(num_b[:nf]) if isinstance(num_b, (tuple, list)) else (num_b,) * nf


def phase_coeff(vj, freq, nf, np_, nb):
    """C_f(k) for k=-N..N, as dict-like arrays [f][k+N, v]; N = largest number of Bessel functions"""
    N = max(nb)
    out = []
    for f in range(1, nf + 1):
        amp = []
        for p in range(1, np_ + 1):
            v = vj[f, p]
            al = np.abs(v) / (p * freq[f])
            ph = np.angle(v)
            a = np.zeros((2 * N + 1, v.size), dtype=complex)
            for n in range(-nb[f - 1], nb[f - 1] + 1):
                a[n + N] = jv(n, al) * np.exp(-1j * n * ph)
            amp.append(a)
        c = amp[0]
        for p in range(2, np_ + 1):
            d = np.zeros_like(c)
            for k in range(-N, N + 1):
                for l in range(-N, N + 1):
                    if abs(k - p * l) <= N:
                        d[k + N] += c[k - p * l + N] * amp[p - 1][l + N]
            c = d
        out.append(c)
    return out, N


def resp_table(resp, vb, freq, nb):
    """resp evaluated at vb + sum k_f * freq_f"""
    ks = [np.arange(-n, n + 1) for n in nb]
    grid = np.meshgrid(*ks, indexing='ij')
    v = np.zeros(grid[0].shape + (len(vb),))
    v += vb
    for g, f in zip(grid, freq[1:]):
        v = v + g[..., None] * f
    return resp(v)


def current(vj, freq, nf, np_, vb, resp, freq_list, num_b, table=None):
    """Tunnelling current (MTSDA) at each output frequency, with QMix's truncation:
    indices limited to num_b per tone, output frequencies matched to 4 decimals."""
    nb = nb_tuple(num_b, nf)
    C, N = phase_coeff(vj, freq, nf, np_, nb)
    if table is None:
        table = resp_table(resp, vb, freq, nb)
    npts = len(vb)
    cache = {}

    def harm(a):
        if a in cache:
            return cache[a]
        tot = np.zeros((2, npts), dtype=complex)
        for s, sign in ((0, 1), (1, -1)):
            # sum over k with |k_f|<=nb_f and |k_f + sign*a_f|<=nb_f
            T = table
            for f in range(nf):
                n = nb[f]
                w = np.zeros((2 * n + 1, npts), dtype=complex)
                for k in range(-n, n + 1):
                    kk = k + sign * a[f]
                    if -n <= kk <= n:
                        w[k + n] = C[f][k + N] * np.conj(C[f][kk + N])
                # contract the first axis of T
                T = np.einsum('k...v,kv->...v', T, w)
            tot[s] = T
        if all(x == 0 for x in a):
            r = tot[0].imag + 0j
        else:
            r = (tot[0].imag + tot[1].imag) - 1j * (tot[0].real - tot[1].real)
        cache[a] = r
        return r
    out = np.zeros((len(freq_list), npts), dtype=complex)
    combos = list(itertools.product(range(np_, -(np_ + 1), -1), repeat=nf))
    for i, fo in enumerate(freq_list):
        fo = round(fo, 4)
        for a in combos:
            s = a[0] * freq[1]
            for f in range(1, nf):
                s = s + a[f] * freq[f + 1]
            if round(s, 4) == fo:
                out[i] += harm(a)
    return out


def hb_errors(vj, freq, vt, zt, nf, np_, vb, resp, num_b, table=None):
    """relative error of the circuit equation, [signal, bias point]"""
    fl = [round(freq[f] * p, 4) for f in range(1, nf + 1) for p in range(1, np_ + 1)]
    ij = current(vj, freq, nf, np_, vb, resp, fl, num_b, table)
    v = vj[1:, 1:].reshape(nf * np_, -1)
    vtf = np.array(vt, dtype=complex)[1:, 1:].reshape(-1)
    vtf = np.where(np.abs(vtf) < MIN_VT, MIN_VT, vtf)
    z = np.array(zt, dtype=complex)[1:, 1:].reshape(-1)
    with np.errstate(all='ignore'):
        err = np.abs(vtf[:, None] - z[:, None] * ij - v)
        noise = 1e-14 * (np.abs(vtf)[:, None] + np.abs(z[:, None]) * (1 + np.abs(ij)) + np.abs(v))   # rounding of I
        return err / np.abs(v), err, np.abs(v), noise


def judge(hb, stop):
    """(certainly satisfied or too close to call, certainly satisfied) per signal and point"""
    rel, err, v, noise = hb
    with np.errstate(all='ignore'):
        band = stop * v * 1e-6 + noise + 1e-12 * v
        sat = err <= stop * v + band                # NaN: not satisfied
        sure = err < stop * v - band
    return sat, sure
