"""Catalogue of QMix operations on a pool of shared objects (used by the thread, session and cluster worlds).

A pool maps names to specs; ``build`` makes the real object from a spec.  An
operation is a JSON-able dict {'op': name, ...} whose arguments refer to pool
objects by name.  ``perform(op, get)`` runs it and returns plain data.
"""
import numpy as np

from . import meas, objs

TEST_V = np.concatenate((np.linspace(-2.3, 2.3, 41), [0., 1., -1., 30., 1e-3]))


# ------------------------------------------------------------------ pool
def arr(spec):
    """plain array from a spec"""
    rs = np.random.RandomState(spec['seed'] % (1 << 31))
    s = spec['style']
    n = spec.get('n', 60)
    if s == 'grid':
        x = np.linspace(spec.get('lo', -2.), spec.get('hi', 2.), n)
    elif s == 'sorted':
        x = np.sort(rs.uniform(spec.get('lo', -2.), spec.get('hi', 2.), n))
    elif s == 'noise':
        x = rs.randn(n)
    elif s == 'smooth':
        x = np.cumsum(rs.randn(n)) * 0.1
    elif s == 'xnan':
        x = np.round(rs.uniform(-2, 2, n), 1)
        x[rs.uniform(size=n) < 0.1] = np.nan
    elif s == 'iv':
        v = np.linspace(0, 6, n)
        q = 20 + spec['seed'] % 13
        x = v * v ** (2 * q) / (1 + v ** (2 * q))
        x = x + v / 40.
        if spec['seed'] % 2:
            x[0] = [1e-12, -3e-17, 2e-5][spec['seed'] % 3]     # not exactly zero: measured
    elif s == 'v0':
        x = np.linspace(0, 6, n)
    elif s == 'spec':
        f = np.linspace(1, 9, n)
        return lay(np.column_stack((f, -40 + rs.randn(n), -42 + rs.randn(n))), spec)
    else:
        raise ValueError(s)
    return lay(x, spec)


def lay(x, spec):
    """memory layout as the caller happens to have it"""
    k = spec.get('lay', 'c')
    if k == 'view':
        base = np.full((x.shape[0] * 2 + 3,) + x.shape[1:], 777.0, dtype=x.dtype)
        base[1:1 + 2 * x.shape[0]:2] = x
        return base[1:1 + 2 * x.shape[0]:2]
    if k == 'f':
        return np.asfortranarray(x)
    return x


UNITS = dict(m=('mV', 'mA'), si=('V', 'A'), u=('uV', 'uA'))


def units_kw(spec):
    v, i = UNITS[spec.get('fmt', 'm')]
    return {} if v == 'mV' else dict(v_fmt=v, i_fmt=i)


def dirty(x, y, spec, sweeps=True):
    """the state real files are in: dropped readings, repeated readings, other sweep directions"""
    d = spec.get('dirt')
    if d == 'nan':
        x, y = x.copy(), y.copy()
        y[5::97] = np.nan
        x[31::201] = np.nan
    elif d == 'dup':
        k = np.sort(np.r_[np.arange(len(x)), np.arange(3, len(x), 50)])
        x, y = x[k], y[k]
    elif d == 'down':
        x, y = x[::-1].copy(), y[::-1].copy()
    elif d == 'round' and sweeps:
        m = int(np.abs(x).argmin())
        k = np.r_[np.arange(m, len(x)), np.arange(len(x) - 2, -1, -1), np.arange(1, m)]
        x, y = x[k], y[k]
    return x, y


def build(spec, get=None):
    k = spec['k']
    if k == 'arr':
        return arr(spec)
    if k == 'cct':
        return objs.build_circuit(spec)
    if k == 'resp':
        return build_resp(spec, get)
    if k == 'vj':
        rs = np.random.RandomState(spec['seed'] % (1 << 31))
        sh = (spec['nf'] + 1, spec['np'] + 1, spec['npts'])
        x = np.zeros(sh, dtype=complex)
        x[1:, 1:] = spec['scale'] * (rs.uniform(0.1, 1, (spec['nf'], spec['np'], spec['npts'])) *
                                     np.exp(1j * rs.uniform(-1, 1, (spec['nf'], spec['np'], spec['npts']))))
        if spec.get('bad'):
            val = {'nan': np.nan, 'inf': np.inf, 'zero': 0., 'vast': 1e20, 'tiny': 1e-200}[spec['bad']]
            for _ in range(3):
                x[1 + rs.randint(spec['nf']), 1 + rs.randint(spec['np']), rs.randint(spec['npts'])] = val
        return lay(x, spec) if spec.get('lay') == 'f' else x
    if k == 'iv':
        v, i = meas.iv_samples(spec['j'], spec['n'], pump=tuple(spec['pump']) if spec.get('pump') else None, k=spec.get('kk', 0))
        v, i = dirty(v, i, spec)
        return lay(meas.matrix(v, i, *UNITS[spec.get('fmt', 'm')]), spec)
    if k == 'if':
        v, p = meas.if_samples(spec['j'], spec['what'], spec['n'], freq=spec.get('freq', 230.))
        v, p = dirty(v, p, spec, sweeps=False)
        return lay(meas.matrix(v, p, UNITS[spec.get('fmt', 'm')][0]), spec)
    if k == 'dc':
        from qmix.exp.iv_data import dciv_curve
        return dciv_curve(build(spec['iv']), vrn=(3.5e-3, 4.8e-3), npts=spec.get('npts', 1501), **units_kw(spec['iv']))[2]
    if k == 'dcdata':
        from qmix.exp import DCData
        return DCData(build(spec['iv']), build(spec['dcif']) if spec.get('dcif') else None, **kwargs(spec['kw']))
    raise ValueError(k)


def kwargs(kw):
    """JSON keyword arguments -> what a caller would write"""
    return {k: v for k, v in kw.items()}


def build_resp(spec, get=None):
    import qmix.respfn as R
    kind = spec['kind']
    kw = dict(spec.get('kw', {}))
    if kind == 'sim':
        return objs.SimResp(spec['n'], spec['q'], spec['s'], spec.get('garbage'), spec.get('calls'))
    if kind == 'iv':
        n = spec.get('n', 301)
        v = np.linspace(0, 6, n)
        p = spec.get('p', 20)
        with np.errstate(all='ignore'):
            g = v ** (2 * p) / (1 + v ** (2 * p))
        return R.RespFn(v, v * g + v / spec.get('q', 30) * (1 - g), verbose=False, **dict(dict(max_npts_dc=31, max_npts_kk=41, kk_n=10), **kw))
    if kind == 'fromiv':
        v = np.linspace(0, 2.5, 251)
        p = spec.get('p', 20)
        g = v ** (2 * p) / (1 + v ** (2 * p))
        return R.RespFnFromIVData(v, v * g + v / spec.get('q', 30) * (1 - g), verbose=False, **kw)
    if kind == 'poly':
        return R.RespFnPolynomial(spec.get('p', 30), verbose=False, **kw)
    if kind == 'exp':
        return R.RespFnExponential(verbose=False, **kw)
    if kind == 'perfect':
        return R.RespFnPerfect(verbose=False, **kw)
    raise ValueError(kind)


# ------------------------------------------------------- results as plain data
def norm(x, depth=0):
    """plain, picklable picture of a result"""
    from qmix.circuit import EmbeddingCircuit
    from qmix.respfn import RespFn
    if depth > 8:
        return '...'
    if x is None or isinstance(x, (bool, str, bytes)):
        return x
    if isinstance(x, (np.bool_,)):
        return bool(x)
    if isinstance(x, (int, np.integer)):
        return int(x)
    if isinstance(x, (float, complex, np.number)):
        return ('num', complex(x))
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            return ('objarr', [norm(y, depth + 1) for y in x.ravel()])
        return ('arr', np.array(x, copy=True))
    if isinstance(x, RespFn):
        return ('respfn', type(x).__name__, behaviour(x))
    if isinstance(x, EmbeddingCircuit):
        return ('circuit', [(k, norm(v, depth + 1)) for k, v in public(x)])
    if isinstance(x, dict):
        return ('dict', [(str(k), norm(v, depth + 1)) for k, v in sorted(x.items(), key=lambda t: str(t[0]))])
    if isinstance(x, (list, tuple)):
        return ('seq', [norm(y, depth + 1) for y in x])
    if callable(x) and not hasattr(x, '__dict__'):
        return 'callable'
    if isinstance(x, objs.SimResp):
        return 'simresp'
    if hasattr(x, '__dict__'):
        return ('object', type(x).__name__, [(k, norm(v, depth + 1)) for k, v in public(x)])
    return str(type(x))


def public(x):
    """public data attributes and properties"""
    names = [k for k in vars(x) if not k.startswith('_')]
    for c in type(x).__mro__:
        names += [k for k, v in vars(c).items() if isinstance(v, property) and not k.startswith('_')]
    out = []
    for k in sorted(set(names)):
        try:
            out.append((k, getattr(x, k)))
        except Exception as e:
            out.append((k, 'raises ' + type(e).__name__))
    return out


def behaviour(r):
    """a response function is what it answers"""
    out = []
    for m in ('idc', 'ikk', 'didc', 'dikk', 'resp'):
        try:
            with np.errstate(all='ignore'):
                out.append(norm(getattr(r, m)(TEST_V.copy())))
        except Exception as e:
            out.append(type(e).__name__)
    return out


def same(a, b, rtol=1e-9, path=''):
    """None if equal, otherwise where they differ"""
    if type(a) is not type(b):
        return '%s: %s / %s' % (path, type(a).__name__, type(b).__name__)
    if isinstance(a, tuple) and a and a[0] == 'num':
        x, y = a[1], b[1]
        for p, q in ((x.real, y.real), (x.imag, y.imag)):
            if p != q and not (np.isnan(p) and np.isnan(q)):
                if not abs(p - q) <= rtol * (abs(x) + abs(y)) + 1e-300:
                    return '%s: %r / %r' % (path, x, y)
        return None
    if isinstance(a, tuple) and a and a[0] == 'arr':
        return same_arr(a[1], b[1], rtol, path)
    if isinstance(a, (tuple, list)):
        if len(a) != len(b):
            return '%s: length %d / %d' % (path, len(a), len(b))
        for k, (p, q) in enumerate(zip(a, b)):
            name = '%s.%s' % (path, a[0]) if isinstance(a, tuple) and len(a) == 2 and isinstance(a[0], str) and k == 1 else '%s[%d]' % (path, k)
            d = same(p, q, rtol, name)
            if d:
                return d
        return None
    return None if a == b else '%s: %r / %r' % (path, a, b)


def same_arr(x, y, rtol, path):
    if x.shape != y.shape:
        return '%s: shape %s / %s' % (path, x.shape, y.shape)
    if x.dtype != y.dtype:
        return '%s: dtype %s / %s' % (path, x.dtype, y.dtype)
    if x.dtype.kind not in 'fc':
        return None if (x == y).all() else '%s: values differ' % path
    if x.tobytes() == y.tobytes():
        return None
    with np.errstate(all='ignore'):
        parts = ((x.real, y.real), (x.imag, y.imag)) if x.dtype.kind == 'c' else ((x, y),)
        for p, q in parts:
            eq = (p == q) | (np.isnan(p) & np.isnan(q))
            scale = np.abs(x) + np.abs(y)
            big = float(np.max(scale[np.isfinite(scale)], initial=0.0))
            ok = eq | (np.abs(p - q) <= rtol * scale + rtol * 1e-3 * big)
            if not ok.all():
                k = int(np.argmin(ok.ravel()))
                return '%s[%s]: %r / %r' % (path, ','.join(map(str, np.unravel_index(k, x.shape))), x.ravel()[k], y.ravel()[k])
    return None


# ------------------------------------------------------------------ operations
def freq_list(a, cct_spec):
    f = cct_spec['freq']
    k = a['fl']
    if k == 'dc':
        return 0.
    if k == 'f1':
        return f[0]
    if k == 'all':
        return list(f)
    if k == 'dcf':
        return [0.] + list(f)
    if k == 'list0':
        return [0., 0.]
    return [0., f[0], 2 * f[0]]


def perform(op, get, spec_of):
    """run one operation; get(name) -> pool object"""
    o = op['op']
    return OPS[o](op, get, spec_of)


def o_qt(op, get, sp):
    from qmix.qtcurrent import interpolate_respfn, qtcurrent
    cct, resp, vj = get(op['cct']), get(op['resp']), get(op['vj'])
    nb = objs.num_b(op['nb'])
    m = interpolate_respfn(cct, resp, nb) if op.get('mat') else None
    fl = op['_fl']
    if op.get('fla'):
        fl = np.array(fl)
        keep = fl.copy()
    r = qtcurrent(vj, cct, resp, fl, nb, verbose=op.get('verbose', False), resp_matrix=m)
    if op.get('fla') and fl.tobytes() != keep.tobytes():
        raise Modified('qtcurrent modified its array of frequencies')
    return (r, m)


def o_interp(op, get, sp):
    from qmix.qtcurrent import interpolate_respfn
    return interpolate_respfn(get(op['cct']), get(op['resp']), objs.num_b(op['nb']))


def o_hb(op, get, sp):
    from qmix.harmonic_balance import harmonic_balance
    kw = dict(op['kw'])
    if op.get('vj'):
        kw['vj_initial'] = get(op['vj'])
    return harmonic_balance(get(op['cct']), get(op['resp']), objs.num_b(op['nb']), **kw)


def o_check(op, get, sp):
    from qmix.harmonic_balance import check_hb_error
    return check_hb_error(get(op['vj']), get(op['cct']), get(op['resp']), objs.num_b(op['nb']), op['stop'])


def o_respeval(op, get, sp):
    r = get(op['resp'])
    return getattr(r, op['m'])(get(op['x']))


def o_mkresp(op, get, sp):
    import qmix.respfn as R
    kw = dict(op['kw'])
    k = op['cls']
    if k == 'RespFn':
        r = R.RespFn(get(op['v']), get(op['i']), **kw)
    elif k == 'RespFnFromIVData':
        r = R.RespFnFromIVData(get(op['v']), get(op['i']), **kw)
    elif k == 'RespFnPolynomial':
        r = R.RespFnPolynomial(op['p'], **kw)
    elif k == 'RespFnExponential':
        r = R.RespFnExponential(**kw)
    else:
        r = R.RespFnPerfect(**kw)
    return r


def o_model(op, get, sp):
    import qmix.mathfn.ivcurve_models as M
    return getattr(M, op['m'])(get(op['x']), **op['kw'])


def o_math1(op, get, sp):
    from qmix.mathfn.filters import gauss_conv
    return gauss_conv(get(op['x']), **op['kw'])


def o_math2(op, get, sp):
    from qmix.mathfn.kktrans import kk_trans, kk_trans_trapz
    from qmix.mathfn.misc import slope, slope_span_n
    f = dict(kk_trans=kk_trans, kk_trans_trapz=kk_trans_trapz, slope=slope, slope_span_n=slope_span_n)[op['m']]
    return f(get(op['x']), get(op['y']), **op['kw'])


def o_clean(op, get, sp):
    import qmix.exp.clean_data as C
    x, y = get(op['x']), get(op['y'])
    m = op['m']
    if m in ('remove_nans_xy', 'sort_xy', 'clean_xy', 'xy_to_matrix', 'remove_doubles_xy'):
        return getattr(C, m)(x, y)
    mat = np.column_stack((x, y))
    keep = mat.copy()
    r = getattr(C, m)(mat)
    if mat.tobytes() != keep.tobytes():
        raise Modified('%s modified its matrix' % m)
    return r


class Modified(Exception):
    pass


def o_dciv(op, get, sp):
    from qmix.exp.iv_data import dciv_curve
    return dciv_curve(get(op['iv']), **op['kw'])


def o_iv(op, get, sp):
    from qmix.exp.iv_data import iv_curve
    return iv_curve(get(op['iv']), get(op['dc']), **op['kw'])


def o_dcif(op, get, sp):
    from qmix.exp.if_data import dcif_data
    return dcif_data(get(op['if']), get(op['dc']), **op['kw'])


def o_if(op, get, sp):
    from qmix.exp.if_data import if_data
    return if_data(get(op['hot']), get(op['cold']), get(op['dc']), **op['kw'])


def o_ifresp(op, get, sp):
    from qmix.exp.if_response import if_response
    x = get(op['x'])
    return if_response(x.T if op.get('t') else x, **op['kw'])


def o_dcdata(op, get, sp):
    from qmix.exp import DCData
    d = DCData(get(op['iv']), get(op['if']) if op.get('if') else None, **op['kw'])
    return d


def o_pumped(op, get, sp):
    from qmix.exp import PumpedData
    p = PumpedData(get(op['iv']), get(op['dcdata']), get(op['hot']) if op.get('hot') else None,
                   get(op['cold']) if op.get('cold') else None, **op['kw'])
    return p


def o_power(op, get, sp):
    c = get(op['cct'])
    out = []
    for f in range(1, c.num_f + 1):
        for p in range(1, c.num_p + 1):
            for u in op['units']:
                try:
                    with np.errstate(all='ignore'):
                        out.append(c.available_power(f, p, u))
                except (ValueError, AssertionError, TypeError, AttributeError) as e:
                    out.append(type(e).__name__)
    return out


def o_cctinfo(op, get, sp):
    c = get(op['cct'])
    c.print_info()
    return [str(c) if type(c).__str__ is not object.__str__ else '', c.initialize_vj()]


def o_newcct(op, get, sp):
    """a circuit made from scratch and set up by the API; the setters must not leak into anything else"""
    from qmix.circuit import EmbeddingCircuit
    c = EmbeddingCircuit(op['nf'], op['np'], vb_min=0, vb_max=1.5, vb_npts=4, fgap=op['fgap'], vgap=2.8e-3, rn=14.)
    for k, st in enumerate(op['set']):
        try:
            if st[0] == 'freq':
                c.set_freq(st[1], st[2], st[3])
            elif st[0] == 'vt':
                c.vt[st[1], st[2]] = st[3]
            elif st[0] == 'zt':
                c.zt[st[1], st[2]] = complex(*st[3])
            elif st[0] == 'power':
                c.set_available_power(st[3], st[1], st[2], st[4])
            elif st[0] == 'alpha':
                c.set_alpha(st[3], st[1], st[2])
            elif st[0] == 'name':
                c.set_name(st[3], st[1], st[2])
        except (AssertionError, ValueError, TypeError):
            pass
    return c


def o_term(op, get, sp):
    from qmix.misc import terminal as T
    from qmix.misc.progbar import progress_bar
    T.title('x')
    T.header('y')
    T.cprint('z', 'GREEN' if op.get('g') else 'RED') if hasattr(T, 'cprint') else None
    T.pvalf('a', 1.2, 'V')
    T.pvale('a', 1.2e-6, 'V')
    T.printc(1 + 2j)
    for k in range(4):
        progress_bar(k, 3)
    return None


def o_plot(op, get, sp):
    """figures; saving is stubbed by the world"""
    x = get(op['on'])
    import matplotlib.pyplot as plt
    try:
        getattr(x, op['m'])(fig_name='fig.png', **op['kw'])
    finally:
        plt.close('all')


OPS = dict(plot=o_plot, qt=o_qt, interp=o_interp, hb=o_hb, check=o_check, respeval=o_respeval, mkresp=o_mkresp, model=o_model,
           math1=o_math1, math2=o_math2, clean=o_clean, dciv=o_dciv, iv=o_iv, dcif=o_dcif, ifd=o_if, ifresp=o_ifresp,
           dcdata=o_dcdata, pumped=o_pumped, power=o_power, cctinfo=o_cctinfo, newcct=o_newcct, term=o_term)


# ------------------------------------------------------------------ generators
def gen_pool(rng, heavy=False, cost=2e4, faulty_resp=0.0):
    """a handful of objects; few values, so that operations collide"""
    P = {}
    base, nb = objs.hb_circuit(rng.sub('c0'), cost)
    P['c0'] = dict(base, k='cct', kw=dict(fgap=6.5e11, vgap=2.8e-3, rn=14.) if rng.chance(0.6) else {})
    # variants that differ in one thing only
    for n in range(1, rng.randint(2, 4)):
        b = dict(P['c0'])
        what = rng.choice(['freq', 'vt', 'zt', 'npts', 'vmax', 'new', 'locked', 'zero-zt'])
        if what == 'freq':
            b['freq'] = [round(x + 0.013 * (k + 1), 4) for k, x in enumerate(b['freq'])]
        elif what == 'vt':
            b['vt'] = [[[round(x[0] + 0.05, 4), x[1]] for x in r] for r in b['vt']]
        elif what == 'zt':
            b['zt'] = [[[round(x[0] + 0.1, 4), -x[1]] for x in r] for r in b['zt']]
        elif what == 'npts':
            b['npts'] = b['npts'] + 1
        elif what == 'vmax':
            b['vmax'] = round(b['vmax'] + 0.11, 3)
        elif what == 'locked':
            b['locked'] = True
        elif what == 'zero-zt':
            b['zt'] = [[[0., 0.] for x in r] for r in b['zt']]
        else:
            b = dict(objs.hb_circuit(rng.sub('c', n), cost)[0], k='cct')
        P['c%d' % n] = b
    kinds = ['sim', 'iv', 'iv', 'perfect'] + (['poly', 'exp', 'fromiv'] if heavy else ['fromiv'] if rng.chance(0.15) else [])
    for n in range(2):
        k = rng.choice(kinds)
        P['r%d' % n] = dict(k='resp', kind=k, p=rng.choice([10, 20, 30]), q=rng.choice([15, 30]), n=301 if k == 'iv' else 20, s=0.05)
        if k in ('iv', 'fromiv') and rng.chance(0.3):
            P['r%d' % n]['kw'] = dict(v_smear=0.02)
        if rng.chance(faulty_resp) and k == 'sim':
            P['r%d' % n]['calls'] = {rng.choice(['1', '2', '3', 'all']): [rng.choice(['raise', 'interrupt', 'nan']), 0.1]}
    for c in [k for k in P if k[0] == 'c']:
        for m in range(2 if c == 'c0' else 1):
            s = P[c]
            P['v%s%d' % (c, m)] = dict(k='vj', nf=s['nf'], np=s['np'], npts=s['npts'], seed=rng.randrange(1 << 30),
                                       scale=rng.choice([0.05, 0.3]), lay=rng.choice(['c', 'c', 'f']))
            if rng.chance(0.25):
                P['v%s%d' % (c, m)]['bad'] = rng.choice(['nan', 'nan', 'inf', 'zero', 'vast', 'tiny'])
    lay = lambda: rng.choice(['c', 'c', 'view'])
    P['x0'] = dict(k='arr', style='grid', lo=-2, hi=2, n=rng.choice([40, 60]), seed=1, lay=lay())
    P['x1'] = dict(k='arr', style='sorted', n=P['x0']['n'], seed=rng.randrange(999), lay=lay())
    P['y0'] = dict(k='arr', style='smooth', n=P['x0']['n'], seed=rng.randrange(999), lay=lay())
    P['y1'] = dict(k='arr', style='noise', n=P['x0']['n'], seed=rng.randrange(999), lay=lay())
    P['n0'] = dict(k='arr', style='xnan', n=P['x0']['n'], seed=rng.randrange(999), lay=lay())
    P['V0'] = dict(k='arr', style='v0', n=301, seed=0, lay=lay())
    P['I0'] = dict(k='arr', style='iv', n=301, seed=rng.randrange(999), lay=lay())
    P['S0'] = dict(k='arr', style='spec', n=20, seed=rng.randrange(999), lay=lay())
    j = meas.junction(rng)
    P['iv0'] = dict(k='iv', j=j, n=rng.choice([401, 601]), lay=rng.choice(['c', 'view', 'f']), fmt=rng.choice(['m', 'm', 'si', 'si', 'u']),
                    dirt=rng.choice([None, None, None, 'nan', 'dup', 'down', 'round']))
    P['iv1'] = dict(P['iv0'], pump=[230., 0.9], kk=1)
    j2 = dict(j, seed=j['seed'] + 1, rn=round(j['rn'] + 2, 2))
    P['iv2'] = dict(P['iv0'], j=j2)
    P['dc0'] = dict(k='dc', iv=dict(P['iv0'], lay='c'))
    P['dc1'] = dict(k='dc', iv=dict(P['iv2'], lay='c'))
    for w in ('dc', 'hot', 'cold'):
        P['if' + w] = dict(k='if', j=j, what=w, n=301, lay=rng.choice(['c', 'view', 'f']), fmt=P['iv0']['fmt'],
                           dirt=rng.choice([None, None, None, 'nan', 'dup', 'down']))
    if heavy:
        P['D0'] = dict(k='dcdata', iv=dict(P['iv0'], lay='c'), dcif=dict(P['ifdc'], lay='c'),
                       kw=dict(vrn=[3.5e-3, 4.8e-3], vshot=[4.5e-3, 5.2e-3], npts=1501, ifdata_npts=300, verbose=False, **units_kw(P['iv0'])))
    return P, nb


def gen_op(rng, P, nb, heavy=False, verbose=0.3, only=None, plots=False):
    """one operation on the pool; arguments biased so that neighbours share most of them"""
    w = dict(qt=5, interp=3, hb=8, check=2, respeval=4, mkresp=2, model=3, math1=2, math2=3, clean=3, dciv=4, iv=3, dcif=3,
             ifd=3, ifresp=2, power=2, cctinfo=1, newcct=2, term=1)
    if heavy:
        w.update(dcdata=2, pumped=3)
    if plots and (heavy or any(k[0] == 'r' and P[k]['kind'] != 'sim' for k in P)):
        w['plot'] = 4 if heavy else 1
    if only:
        w = {k: v for k, v in w.items() if k in only}
    o = rng.pick(w)
    op = dict(op=o)
    ccts = [k for k in P if k[0] == 'c']
    resps = [k for k in P if k[0] == 'r']
    vb = rng.chance(verbose)
    if o in ('qt', 'interp', 'hb', 'check'):
        c = 'c0' if rng.chance(0.5) else rng.choice(ccts)
        nb_ = nb
        if rng.chance(0.4):
            nb_ = [max(1, b - 1) for b in nb] if isinstance(nb, list) else max(1, nb - rng.randint(0, 1))
        if isinstance(nb_, list) and len(nb_) < P[c]['nf']:
            nb_ = max(1, min(4, max(nb_)))
        op.update(cct=c, resp=rng.choice(resps), nb=nb_)
        vjs = [k for k in P if k.startswith('v' + c)]
        if o == 'qt':
            op.update(vj=rng.choice(vjs), fl=rng.choice(['dc', 'f1', 'all', 'dcf', 'list0', 'mix']), mat=rng.chance(0.3), verbose=vb)
            op['_fl'] = freq_list(op, P[c])
            if isinstance(op['_fl'], list):
                if rng.chance(0.3):
                    op['_fl'] = [x + 1.7e-6 for x in op['_fl']]
                op['fla'] = rng.chance(0.3)
        elif o == 'check':
            op.update(vj=rng.choice(vjs), stop=rng.choice([1e-3, 10.]))
        elif o == 'hb':
            op['kw'] = dict(max_it=rng.choice([0, 1, 2, 3, 5]), stop_rerror=rng.choice([1e-3, 1e-2, 1e-6]),
                            mode=rng.choice(['o', 'x', 'm']), verbose=vb)
            if rng.chance(0.3):
                op['kw']['damp_coeff'] = rng.choice([0.5, 0.9])
            if rng.chance(0.4):
                op['vj'] = rng.choice(vjs)
    elif o == 'respeval':
        r = rng.choice(resps)
        ms = ['resp', '__call__', 'idc', 'ikk'] + ([] if P[r]['kind'] in ('sim', 'perfect') else ['didc', 'dikk', 'resp_conj', 'resp_swap'])
        op.update(resp=r, m=rng.choice(ms), x=rng.choice(['x0', 'x1', 'y1']))
    elif o == 'mkresp':
        cls = rng.choice(['RespFn', 'RespFn', 'RespFnPerfect'] + (['RespFnFromIVData', 'RespFnPolynomial', 'RespFnExponential'] if heavy else []))
        kw = dict(verbose=vb)
        if cls in ('RespFn', 'RespFnFromIVData'):
            op.update(v='V0', i='I0')
            if cls == 'RespFn':
                kw.update(max_npts_dc=31, max_npts_kk=41, kk_n=10)
        if cls == 'RespFnPolynomial':
            op['p'] = rng.choice([20, 50])
        if rng.chance(0.4):
            kw['v_smear'] = rng.choice([0.02, 0.05])
        if rng.chance(0.2) and cls != 'RespFnPerfect':
            kw['check_error'] = True
            kw['max_interp_error'] = 0.5
        op.update(cls=cls, kw=kw)
    elif o == 'model':
        m = rng.choice(['perfect', 'perfect_kk', 'polynomial', 'exponential', 'expanded'])
        kw = {}
        if m == 'polynomial' and rng.chance(0.6):
            kw['order'] = rng.choice([20, 30])
        if m == 'exponential' and rng.chance(0.5):
            kw['model'] = rng.choice(['fixed', 'original'])
        if m in ('exponential', 'expanded') and rng.chance(0.4):
            kw['rn'] = 20.
        op.update(m=m, x=rng.choice(['x0', 'x1', 'V0']), kw=kw)
    elif o == 'math1':
        op.update(x=rng.choice(['y0', 'y1', 'I0']), kw=dict(sigma=rng.choice([1, 2.5, 5]), **({'ext_x': 2} if rng.chance(0.3) else {})))
    elif o == 'math2':
        m = rng.choice(['kk_trans', 'kk_trans_trapz', 'slope', 'slope_span_n'])
        kw = dict(n=rng.choice([5, 11])) if m == 'slope_span_n' else dict(n=rng.choice([5, 20])) if m == 'kk_trans' else {}
        op.update(m=m, x='x0' if rng.chance(0.7) or m == 'kk_trans' else 'x1', y=rng.choice(['y0', 'y1', 'x0']), kw=kw)
    elif o == 'clean':
        op.update(m=rng.choice(['remove_nans_xy', 'sort_xy', 'clean_xy', 'xy_to_matrix', 'remove_nans_matrix', 'sort_matrix',
                                'clean_matrix', 'matrix_to_xy']), x=rng.choice(['n0', 'x1', 'y1']), y=rng.choice(['y0', 'n0']))
    elif o == 'dciv':
        kw = dict(vrn=[3.5e-3, 4.8e-3], npts=rng.choice([801, 1501]))
        ivkw(rng, kw)
        op.update(iv=rng.choice(['iv0', 'iv2', 'iv0']), kw=kw)
    elif o == 'iv':
        kw = dict(npts=rng.choice([801, 1501]))
        ivkw(rng, kw)
        op.update(iv='iv1', dc=rng.choice(['dc0', 'dc1']), kw=kw)
    elif o in ('dcif', 'ifd'):
        kw = dict(ifdata_npts=300, verbose=vb)
        if rng.chance(0.6):
            kw['vshot'] = rng.choice([[4.5e-3, 5.2e-3], [[4.2e-3, 4.6e-3], [4.8e-3, 5.3e-3]], [[4.5e-3, 5.2e-3]],
                                      [[4.9e-3, 5.3e-3], [4.2e-3, 4.7e-3]]])
        if rng.chance(0.3):
            kw['rseries'] = 1.0
        if rng.chance(0.15):
            kw['vmax'] = 5.5e-3
        if rng.chance(0.15):
            kw['v_multiplier'] = 1.01
        if rng.chance(0.3):
            kw['ifdata_sigma'] = rng.choice([3e-5, 2.0])
        op['dc'] = rng.choice(['dc0', 'dc1'])
        if o == 'dcif':
            op['if'] = 'ifdc'
        else:
            kw['freq'] = 230.
            if rng.chance(0.3):
                kw['best_pt'] = 'Min Tn'
            if rng.chance(0.3):
                kw['vbest'] = 2.2e-3
            if rng.chance(0.3):
                kw['t_hot'] = 300.
            if rng.chance(0.2):
                kw['t_cold'] = 80.
            op.update(hot='ifhot', cold='ifcold')
        op['kw'] = kw
    elif o == 'ifresp':
        op.update(x='S0', t=rng.chance(0.3), kw=dict(t_hot=300.) if rng.chance(0.3) else dict(ifresp_maxtn=500.) if rng.chance(0.4) else {})
    elif o == 'dcdata':
        kw = dict(vrn=[3.5e-3, 4.8e-3], npts=1501, ifdata_npts=300, verbose=vb)
        if rng.chance(0.7):
            kw['vshot'] = [[4.5e-3, 5.2e-3]]
        ivkw(rng, kw)
        kw.pop('filter_data', None)
        op.update(iv=rng.choice(['iv0', 'iv2']), kw=kw)
        if rng.chance(0.7):
            op['if'] = 'ifdc'
    elif o == 'pumped':
        kw = dict(freq=230., npts=1501, ifdata_npts=300, verbose=vb, analyze_iv=rng.chance(0.15), num_b=rng.choice([9, 11]))
        if rng.chance(0.5):
            kw['vshot'] = [[4.5e-3, 5.2e-3]]
        if rng.chance(0.3):
            kw['comment'] = 'x'
        if kw['analyze_iv']:
            if rng.chance(0.5):
                kw.update(remb_range=[0.05, 0.9], xemb_range=[-0.8, 0.8])
            if rng.chance(0.3):
                kw['zemb'] = 0.5
            fit = rng.pick({'no': 2, 'range': 1, 'cut': 1})
            if fit == 'range':
                kw['fit_range'] = [0.3, 0.75]
            elif fit == 'cut':
                kw.update(cut_low=0.3, cut_high=0.2)
            if rng.chance(0.3):
                kw['alpha_max'] = 1.8
        if rng.chance(0.3):
            kw.update(t_hot=295., best_pt='Min Tn')
        op.update(iv='iv1', dcdata='D0', kw=kw)
        if rng.chance(0.7):
            op.update(hot='ifhot', cold='ifcold')
    elif o == 'power':
        op.update(cct=rng.choice(ccts), units=rng.choice([['W'], ['dBm', 'nW'], ['pW', 'dBW']]))
    elif o == 'cctinfo':
        op.update(cct=rng.choice(ccts))
    elif o == 'newcct':
        st = []
        nf, np_ = rng.randint(1, 2), rng.randint(1, 2)
        for _ in range(rng.randint(1, 8)):
            f, p = rng.randint(1, nf), rng.randint(1, np_)
            k = rng.choice(['freq', 'vt', 'zt', 'power', 'alpha', 'name'])
            if k == 'freq':
                st.append(['freq', rng.choice([230., 0.35]), f, rng.choice(['GHz', 'norm', 'mV'])])
            elif k == 'zt':
                st.append(['zt', f, p, [round(rng.uniform(0.1, 1), 2), 0.3]])
            elif k == 'name':
                st.append(['name', f, p, rng.choice(['LO', 'IF', 'upper sideband of the signal, lower port of the balanced mixer'])])
            elif k == 'power':
                st.append(['power', f, p, rng.choice([10., 50.]), rng.choice(['nW', 'dBm'])])
            else:
                st.append([k, f, p, round(rng.uniform(0.1, 1), 2)])
        op.update(nf=nf, np=np_, fgap=rng.choice([6.5e11, 7e11]), set=st)
    elif o == 'plot':
        if 'D0' in P and rng.chance(0.7):
            op.update(on='D0', m=rng.choice(['plot_dciv', 'plot_offset', 'plot_if_noise']), kw=dict(vmax_plot=rng.choice([3., 4.])))
        else:
            op.update(on=rng.choice([r for r in resps if P[r]['kind'] != 'sim'] or ['D0']), kw={})
            op['m'] = rng.choice(['plot', 'plot_interpolation']) if op['on'] != 'D0' else 'plot_dciv'
    elif o == 'term':
        op['g'] = vb
    if o in ('dciv', 'iv', 'dcif', 'ifd', 'dcdata', 'pumped'):
        op['kw'].update(units_kw(P['iv0']))
    return op


def ivkw(rng, kw):
    if rng.chance(0.2):
        kw['filter_data'] = False
    if rng.chance(0.2):
        kw['rseries'] = 1.0
    if rng.chance(0.2):
        kw['voffset_range'] = rng.choice([[-5e-4, 5e-4], 4e-4, [-4e-4, 6e-4], [-7e-3, 7e-3]])
    if rng.chance(0.1):
        kw['vmax'] = rng.choice([5e-3, 6.5e-3])
    if rng.chance(0.1):
        kw.update(filter_nwind=rng.choice([15, 31]), filter_npoly=rng.choice([2, 4]))
    if rng.chance(0.1):
        kw['vrsg'] = 1.8e-3
    if rng.chance(0.1):
        kw['vgap'] = 2.7e-3
    if rng.chance(0.1):
        kw.update(comment='b', area=2.0)
    if rng.chance(0.15):
        kw.update(voffset=1e-5, ioffset=1e-6)
    if rng.chance(0.15):
        kw['v_multiplier'] = 1.01
    if rng.chance(0.15):
        kw['i_multiplier'] = 0.99
    if rng.chance(0.1):
        kw['filter_theta'] = 0.6


def names_in(op):
    """pool objects an operation uses"""
    return [op[k] for k in ('cct', 'resp', 'vj', 'x', 'y', 'v', 'i', 'iv', 'dc', 'if', 'hot', 'cold', 'dcdata', 'on') if op.get(k)]


# --------------------------------------------------- contents of caller objects
def fingerprint(x, depth=0):
    """exact, comparable picture of the contents of an object the caller owns"""
    from qmix.respfn import RespFn
    if depth > 8:
        return '...'
    if isinstance(x, np.ndarray):
        base = x.base if isinstance(x.base, np.ndarray) else None
        return ('arr', x.dtype.str, x.shape, bool(x.flags.writeable),
                x.tobytes() if x.dtype != object else repr([fingerprint(y, depth + 1) for y in x.ravel()]),
                None if base is None or base.dtype == object else base.tobytes())
    if x is None or isinstance(x, (bool, int, float, complex, str, bytes, np.generic)):
        return (type(x).__name__, repr(x))
    if isinstance(x, dict):
        return ('dict', [(repr(k), fingerprint(v, depth + 1)) for k, v in x.items()])
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, [fingerprint(y, depth + 1) for y in x])
    if isinstance(x, objs.SimResp):
        return 'simresp'
    if isinstance(x, RespFn):
        return ('respfn', [(k, fingerprint(v, depth + 1)) for k, v in public(x)], [fingerprint(y) for y in flat(behaviour(x))])
    if callable(x) and not hasattr(x, '__dict__'):
        return 'callable'
    if hasattr(x, '__dict__'):
        return (type(x).__name__, [(k, fingerprint(v, depth + 1)) for k, v in public(x)])
    return type(x).__name__


def flat(x):
    if isinstance(x, tuple) and x and x[0] == 'arr':
        return [x[1]]
    if isinstance(x, (list, tuple)):
        return [z for y in x for z in flat(y)]
    return [x]


def fp_diff(a, b, path=''):
    """first place where two fingerprints differ"""
    if type(a) is not type(b):
        return path + ': type'
    if isinstance(a, (list, tuple)):
        if len(a) != len(b):
            return '%s: %d items / %d items' % (path, len(a), len(b))
        for k, (p, q) in enumerate(zip(a, b)):
            if p != q:
                name = path
                if isinstance(a, tuple) and len(a) == 2 and isinstance(a[0], str) and k == 1:
                    name = path + '.' + a[0]
                elif isinstance(a, tuple) and a[0] == 'arr':
                    name = path + '.' + ['', 'dtype', 'shape', 'writeable', 'values', 'memory around it'][k]
                return fp_diff(p, q, name)
        return path
    if isinstance(a, bytes):
        return path + ' (bytes differ)'
    return '%s: %s -> %s' % (path, str(a)[:60], str(b)[:60])


def result_of(op, get, specs):
    """('ok', plain result) or ('exc', type)"""
    try:
        return ('ok', norm(perform(op, get, specs)))
    except Modified:
        raise
    except Exception as e:
        return ('exc', type(e).__name__)


def result_of2(fn):
    try:
        return ('ok', norm(fn()))
    except Exception as e:
        return ('exc', type(e).__name__ + ': ' + str(e)[:200])


def solo_one(payload):
    """one operation in a pristine process, everything built from specs"""
    P = payload['P']
    cache = {}

    def get(n):
        if n not in cache:
            cache[n] = build(P[n])
        return cache[n]
    for n in names_in(payload['op']):
        get(n)
    return result_of(payload['op'], get, P)


def solo_op(op, P):
    from . import core
    return core.solo('ops_one', dict(P={n: P[n] for n in sorted(set(names_in(op)))}, op=op))


def _register():
    from . import core
    core.SOLO_HANDLERS['ops_one'] = solo_one


_register()
