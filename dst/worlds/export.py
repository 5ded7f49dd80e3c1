"""C13 / C14: exporting results on a simulated disk, from one or several simulated processes."""
import copy
import hashlib
import json
import os
import re
import pathlib
import pickle
import zlib

import numpy as np

from .. import boot, core, meas, ops, plots, simfs
from ..core import World
from ..gen import circuit_values
from ..rng import Rng
from ..sched import Killed, Scheduler, Stepper, lazy_schedule
from ..simclock import SimClock

SIM = {}
DATA = []          # prepared experiments: dict(dc, pumped)
FREQS = [[210.0, 230.0, 230.04, 345.0, 230, 400.0], [211.5, 229.96, 230.0, 345.0, 345, 229.9]]
NOIV, NOIF = 4, 5         # not analysed / measured without IF

FOLDERS = ['dciv/', 'iv-curves/', 'iv-if/', 'impedance/', 'impedance-sim/', 'if-noise/', 'noise-temp/', 'if-spectrum/',
           'overall-results/', 'csv/']
OVERALL = ['csv/dciv-data.txt', 'csv/recovered-emb.txt', 'csv/dciv-info.txt', 'csv/results.txt'] + \
    ['overall-results/%s.png' % n for n in ('iv_curves', 'rdyn', 'noise_temperature', 'noise_temperature_spline_fit', 'noise_temperature_logy',
                                            'noise_temperature_and_gain', 'if_noise', 'embedding_impedance', 'embedding_impedance_all',
                                            'embedding_voltage', 'drive_level', 'junction_impedance')]
STRUC = {'Pumped IV curve': 'p', 'IV + IF': 'p/q', 'Impedance recovery': 'z', 'Impedance recovery (sim)': 'z', 'Noise temperature': 'tn/'}
PLOT1 = ['plot_iv', 'plot_if', 'plot_ivif', 'plot_noise_temp', 'plot_yfac_noise_temp', 'plot_gain_noise_temp', 'plot_gain']
PLOTD = ['plot_dciv', 'plot_offset', 'plot_if_noise']


def prepare():
    """two experiments, imported by the real code"""
    if DATA:
        return
    from qmix.exp import DCData, PumpedData
    import sys
    so, sys.stdout = sys.stdout, core.Sink()
    try:
        for e in range(2):
            j = dict(meas.junction(Rng('export', e)), vgap=[2.72e-3, 2.84e-3][e], noise=1e-8)
            kw = dict(npts=1501 - 300 * e, ifdata_npts=400, vrn=(3.5e-3, 4.8e-3))
            v, i = meas.iv_samples(j, 401)
            dc = DCData(meas.matrix(v, i, 'mV', 'mA'), meas.matrix(*meas.if_samples(j, 'dc')), comment='dc %d' % e, **kw)
            dc0 = DCData(meas.matrix(v, i, 'mV', 'mA'), comment='no if', **kw)
            ps = []
            for k, f in enumerate(FREQS[e]):
                v, i = meas.iv_samples(j, 401, pump=(f, .7 + .1 * k), k=k)
                h, c = (meas.matrix(*meas.if_samples(j, w, freq=f, k=k)) for w in ('hot', 'cold'))
                ps.append(PumpedData(meas.matrix(v, i, 'mV', 'mA'), dc, *((h, c) if k != NOIF else ()), freq=f, num_b=9, analyze_iv=k != NOIV,
                                     comment='p%d' % k, **kw))
            for k, p in enumerate(ps):
                # what the names mean is up to the user: they only have to come out where they belong
                p.iv_file, p.filename_hot, p.filename_cold = 'e%d/iv %d.csv' % (e, k), 'e%d/hot %d.csv' % (e, k), 'e%d/cold %d.csv' % (e, k)
            DATA.append(dict(dc=dc, dc0=dc0, ps=ps))
    finally:
        sys.stdout = so


def dataset(e, var):
    """experiment e, re-measured (var > 0: other values, same frequencies)"""
    d = DATA[e]
    if not var:
        return d
    r = Rng('variant', e, var)
    dc, dc0 = copy.copy(d['dc']), copy.copy(d['dc0'])
    g = 1 + 0.05 * r.random()
    for x in (dc, dc0):
        x.current = x.current * g
        x.voltage = x.voltage + 0.
    ps = []
    for p in d['ps']:
        q = copy.copy(p)
        q.dciv, q.current_dc, q.voltage_dc = dc, dc.current, dc.voltage
        q.current = q.current * g
        if q.if_hot is not None:
            q.tn = q.tn * (1 + r.random())
            q.tn_best = float(q.tn[q.idx_best])
            q.g_db = q.g_db - r.random()
        if q.zt is not None:
            q.zt = q.zt * (1 + 0.3 * r.random())
            q.vt = q.vt * (1 + 0.3 * r.random())
            q.alpha = q.alpha * (1 + 0.2 * r.random())
            q.fit_good = r.chance(0.5)
        q.good_if_noise_fit = r.chance(0.7)
        ps.append(q)
    return dict(dc=dc, dc0=dc0, ps=ps)


# ---------------------------------------------------------------------- jobs
def comb_files(e, var):
    """IF spectra measured with experiment e"""
    out = {}
    for k in range(2 + e):
        r = np.random.RandomState(17 * e + 5 * var + k)
        f = np.linspace(1, 12, 60)
        rows = ['freq hot cold'] + ['%.6f %.6f %.6f' % (a, -40 + .3 * b, -42 + .3 * c) for a, b, c in zip(f, r.randn(60), r.randn(60))]
        out['f%d_%s_comb%d.dat' % (210 + 20 * k, 'cal' if k else 'x_y', k)] = '\n'.join(rows) + '\n'
    return out


def gen_job(rng, kinds=None):
    k = rng.pick(kinds or {'pumped': 5, 'overall': 4, 'dc': 3, 'init': 1, 'one': 2, 'oned': 1.2, 'spectrum': 1.2, 'cct': 1})
    j = dict(kind=k, i=rng.randrange(6 if k == 'pumped' else 5))
    if k == 'pumped':
        j['st'] = rng.pick({'default': 4, 'flat': 1.5, 'dict': 1.5})
        if rng.chance(0.2):
            j['vmax'] = 3.5
        if j['i'] >= 4 and rng.chance(0.6):
            j['i'] = rng.randrange(4)
    elif k == 'dc':
        j['st'] = rng.pick({'default': 4, '': 1, 'my/dc': 1})
        j['noif'] = rng.chance(0.15)
    elif k == 'one':
        j['plot'] = rng.choice(PLOT1)
    elif k == 'oned':
        j['plot'] = rng.choice(PLOTD)
    elif k == 'overall':
        j['sel'] = gen_sel(rng)
        if rng.chance(0.3):
            j['kw'] = rng.choice([dict(tn_max=300), dict(f_range=[200, 350]), dict(vmax_plot=3.5), dict(figsize=[5, 4])])
    elif k == 'cct':
        j['c'] = dict(nf=rng.randint(1, 2), np=rng.randint(1, 2))
        j['c'].update(circuit_values(rng, j['c']['nf'], j['c']['np'], plain=True))
    return j


def gen_sel(rng):
    """which measurements: all, some, in any order, some several times"""
    if rng.chance(0.5):
        return [0, 1, 2, 3]
    sel = rng.sample(range(4), rng.randint(1, 4))
    if rng.chance(0.3):
        sel += [rng.choice(sel) for _ in range(rng.randint(1, 2))]
    return sel


def expected(j, e):
    """names of the files the documented layout requires"""
    k = j['kind']
    if k == 'pumped':
        f = str(FREQS[e][j['i']])
        s = {'default': ['iv-curves/', 'iv-if/', 'impedance/', 'impedance-sim/', 'noise-temp/'], 'flat': [''] * 5,
             'dict': [STRUC[n] + '/' for n in ('Pumped IV curve', 'IV + IF', 'Impedance recovery', 'Impedance recovery (sim)', 'Noise temperature')]}[j['st']]
        names = [s[0] + f + '-iv.png']
        if j['i'] != NOIF:
            names += [s[1] + f + '-iv-if.png', s[4] + f + '-tn.png']
        if j['i'] != NOIV:
            names += [s[2] + f + '-err-surf.png', s[3] + f + '-sim.png']
        return [os.path.normpath(n) for n in names]
    if k == 'dc':
        sub = 'dciv' if j['st'] == 'default' else j['st']
        return [os.path.normpath(os.path.join(sub, n)) for n in (['dciv.png'] if j['noif'] else ['dciv.png', 'dcif.png'])]
    if k == 'one':
        return ['single-%s-%d.png' % (j['plot'], j['i'])]
    if k == 'oned':
        return ['single-%s.png' % j['plot']]
    if k == 'overall':
        return list(OVERALL)
    if k == 'spectrum':
        out = ['if_spectra.png', 'if_spectra2.png', 'if_spectra_smooth.png', 'if_spectra_smooth2.png']
        for n in comb_files(e, 0):
            out += [n[:-4] + '.png', n[:-4] + '2.png']
        return ['if-spectrum/' + n for n in out]
    if k == 'cct':
        return ['circuit-%d.txt' % j['i']]
    return []


def expected_dirs(j):
    if j['kind'] in ('overall', 'init'):
        return [f.rstrip('/') for f in FOLDERS]
    if j['kind'] == 'pumped':
        # folders are made before it is known which figures there are
        return {'default': ['iv-curves', 'iv-if', 'impedance', 'impedance-sim', 'noise-temp'], 'flat': [], 'dict': ['p', 'p/q', 'z', 'tn']}[j['st']]
    if j['kind'] == 'dc':
        return ['dciv'] if j['st'] == 'default' else ['my/dc'] if j['st'] else []
    return []


def setup_job(j, e, var, root, data):
    """what the script around the export does first (not under test)"""
    if j['kind'] in ('one', 'oned', 'cct'):
        _makedirs(root)
    if j['kind'] == 'spectrum':
        _makedirs(os.path.join(root, 'if-spectrum'))
        _makedirs(data)
        for n, t in comb_files(e, var).items():
            with simfs._open(os.path.join(data, n), 'w') as f:
                f.write(t)


def _makedirs(p):
    p = os.path.normpath(p)
    todo = []
    while p and not os.path.lexists(p):
        todo.append(p)
        p = os.path.dirname(p)
    for q in reversed(todo):
        simfs._R['mkdir'](q)


def do_job(j, e, var, folder, data):
    """the export itself: only calls of the real code"""
    import qmix.exp.exp_data as E
    d = dataset(e, var)
    k = j['kind']
    kw = {'vmax_plot': j['vmax']} if j.get('vmax') else {}
    if k == 'pumped':
        st = {'default': None, 'flat': '', 'dict': dict(STRUC)}[j['st']]
        d['ps'][j['i']].plot_all(folder, st, **kw)
    elif k == 'dc':
        d['dc0' if j['noif'] else 'dc'].plot_all(folder, None if j['st'] == 'default' else j['st'], **kw)
    elif k == 'one':
        getattr(d['ps'][j['i']], j['plot'])(os.path.join(folder, 'single-%s-%d.png' % (j['plot'], j['i'])))
    elif k == 'oned':
        getattr(d['dc'], j['plot'])(os.path.join(folder, 'single-%s.png' % j['plot']))
    elif k == 'overall':
        E.plot_overall_results(d['dc'], [d['ps'][i] for i in j['sel']], folder, **j.get('kw', {}))
    elif k == 'init':
        E.initialize_dir(folder)
    elif k == 'spectrum':
        E.plot_if_spectrum(data, os.path.join(folder, 'if-spectrum'))
    elif k == 'cct':
        from .files import build
        build(j['c']).save_info(os.path.join(folder, 'circuit-%d.txt' % j['i']))
    else:
        raise ValueError(k)


def fingerprint(j, e, var):
    d = dataset(e, var)
    objs = [d['dc']] + d['ps']
    return [[(k, zlib.crc32(np.ascontiguousarray(v).tobytes()) if isinstance(v, np.ndarray) else repr(v))
             for k, v in sorted(vars(o).items()) if isinstance(v, (np.ndarray, int, float, complex, str, bool, type(None), dict))] for o in objs]


def tree(root):
    files, dirs = {}, []
    for p, ds, fs in os.walk(root):
        for x in ds:
            dirs.append(os.path.relpath(os.path.join(p, x), root))
        for x in fs:
            with simfs._open(os.path.join(p, x), 'rb') as f:
                files[os.path.relpath(os.path.join(p, x), root)] = f.read()
    return files, sorted(dirs)


def solo_export(payload):
    """the undisturbed export into an empty folder, in a pristine process"""
    j, e, var, mode = payload['job'], payload['e'], payload['var'], payload['mode']
    base = os.path.join(os.getcwd(), 'solo-%d' % os.getpid())
    os.mkdir(base)
    plots.install()
    plots.MODE = mode
    plots.fresh_process()
    plots.reset_numpy_openers()
    root, data = os.path.join(base, 'out'), os.path.join(base, 'data')
    setup_job(j, e, var, root, data)
    os.chdir(base)
    err = None
    with simfs.SimFS(base, bufsize=payload['bufsize']) as fs:
        st = Stepper()
        try:
            if payload['steps']:
                with st:
                    do_job(j, e, var, 'out', 'data')
            else:
                do_job(j, e, var, 'out', 'data')
        except Exception as x:
            if not core.qmix_in_tb(x):
                raise
            err = repr(x)[:300]
        n = fs.n
    files, dirs = tree(root)
    os.chdir('/')
    import shutil
    shutil.rmtree(base)
    return (files, dirs, n, st.n) if err is None else err


class ExportFails(Exception):
    pass


core.SOLO_HANDLERS['export'] = solo_export


def undisturbed(j, e, var, plan, steps=False):
    """oracle; the answers of the pristine processes are kept for the other runs of this check"""
    req = dict(job=j, e=e, var=var, mode=plan['render'], bufsize=plan['bufsize'], steps=steps)
    name = os.path.join(boot.SCRATCH, 'memo-%s' % hashlib.sha256(json.dumps(req, sort_keys=True).encode()).hexdigest()[:24])
    try:
        with simfs._open(name, 'rb') as f:
            r = pickle.loads(f.read())
    except FileNotFoundError:
        r = core.solo('export', req)
    else:
        if isinstance(r, str):
            raise ExportFails('%s raises %s although nothing disturbs it' % (how(j), r))
        return r
    tmp = '%s-%d' % (name, os.getpid())
    with simfs._open(tmp, 'wb') as f:
        f.write(pickle.dumps(r))
    simfs._R['replace'](tmp, name)
    if isinstance(r, str):
        raise ExportFails('%s raises %s although nothing disturbs it' % (how(j), r))
    return r


def printed(text, value):
    """is the number in the text the value, to the printed precision?"""
    text = text.strip()
    if value is None or isinstance(value, (bool, np.bool_, str)):
        return text == str(value)
    try:
        x = complex(text.replace(' ', ''))
    except ValueError:
        return False
    dec = max([len(m) for m in re.findall(r'\.(\d+)', text)] or [0])
    exp = max([int(m) for m in re.findall(r'e([+-]?\d+)', text.lower())] or [0])
    d = x - complex(value)
    tol = 0.51 * 10.0 ** (exp - dec) + 1e-9 * abs(value)
    return abs(d.real) <= tol and abs(d.imag) <= tol


def check_texts(j, e, var, files):
    """the text files carry the values of the data"""
    if j['kind'] != 'overall':
        return None
    d = dataset(e, var)
    dc, ps = d['dc'], [d['ps'][i] for i in j['sel']]
    x = np.array([[float(v) for v in l.split()] for l in files['csv/dciv-data.txt'].decode().splitlines()])
    if x.shape != (len(dc.voltage), 2) or not np.allclose(x, np.column_stack((dc.voltage, dc.current)), rtol=1e-5, atol=1e-9):
        return 'csv/dciv-data.txt is not the DC I-V curve'
    head, *rows = [l.split(', ') for l in files['csv/results.txt'].decode().splitlines()]
    if len(rows) != len(ps):
        return 'csv/results.txt has %d rows for %d measurements' % (len(rows), len(ps))
    for p, r in zip(ps, rows):
        want = {'Frequency (GHz)': p.freq, 'Noise Temperature (K)': p.tn_best, 'Gain (dB)': p.g_db, 'Drive Level': p.alpha,
                'Embedding Impedance (ohms)': p.zt * dc.rn, 'Embedding Voltage (mV)': p.vt * dc.vgap * 1e3,
                'Embedding Circuit Recovered': p.fit_good, 'IF Noise (K)': p.if_noise, 'IF Noise Recovered': p.good_if_noise_fit,
                'IV Filename': p.iv_file, 'IF Filename (Hot)': p.filename_hot, 'IF Filename (Cold)': p.filename_cold}
        row = dict(zip(head, r))
        for k, v in want.items():
            if k not in row or not printed(row[k], v):
                return 'csv/results.txt: %s of the %s GHz measurement is %s, not %r' % (k, p.freq, row.get(k), v)
    rows = [l.split('\t') for l in files['csv/recovered-emb.txt'].decode().splitlines()]
    if len(rows) != len(ps) or any(len(r) != 4 for r in rows):
        return 'csv/recovered-emb.txt does not list the measurements'
    for p, r in zip(ps, rows):
        z = [float(x) for x in re.findall(r'[+-]?\s*\d+\.\d+(?:e[+-]?\d+)?', r[2])]
        zt = p.zt * dc.rn
        if not printed(r[0], p.freq) or not printed(r[1], p.vt * dc.vgap * 1e3) or not printed(r[3], p.fit_good) or \
                len(z) != 2 or abs(z[0] - zt.real) > 0.006 or abs(z[1] - zt.imag) > 0.006:
            return 'csv/recovered-emb.txt: %r is not the embedding circuit at %s GHz' % (r, p.freq)
    vals = [float(re.findall(r'-?\d+\.\d+', l)[0]) for l in files['csv/dciv-info.txt'].decode().splitlines()]
    if len(vals) != 3 or any(abs(a - b) > 0.0051 for a, b in zip(vals, [dc.vgap * 1e3, dc.rn, dc.fgap / 1e9])):
        return 'csv/dciv-info.txt is not the DC data: %s' % vals
    return None


def if_curves(dc):
    return [(dc.if_data[:, 0] * dc.vgap * 1e3, dc.if_data[:, 1]), (dc.shot_slope[:, 0] * dc.vgap * 1e3, dc.shot_slope[:, 1]),
            ([dc.vint * 1e3], [dc.if_noise])]


def best(p):
    return [p.if_hot[p.idx_best, 0] * p.vgap * 1e3], [p.tn_best]


def simulated(p):
    """the pumped I-V curve of the recovered embedding circuit"""
    import qmix
    key = (p.freq, p.zt, p.vt, p.vgap, p.igap, id(p.dciv.resp_smear))
    if key not in SIM:
        cct = qmix.circuit.EmbeddingCircuit(1, 1)
        cct.freq[1], cct.zt[1, 1], cct.vt[1, 1] = p.freq * 1e9 / p.dciv.fgap, p.zt, p.vt
        vj = qmix.harmonic_balance.harmonic_balance(cct, p.dciv.resp_smear, num_b=30, verbose=False)
        i = qmix.qtcurrent.qtcurrent(vj, cct, p.dciv.resp_smear, [0, cct.freq[1]], num_b=30, verbose=False)
        SIM[key] = cct.vb, i[0].real
    return SIM[key][0] * p.vgap * 1e3, SIM[key][1] * p.igap * 1e6


def curves(j, e, var):
    """file name -> [(x, y)] of the measured data each figure has to show"""
    d = dataset(e, var)
    out = {}
    mv, ua = d['dc'].vgap * 1e3, d['dc'].igap * 1e6
    if j['kind'] == 'dc':
        dc = d['dc0'] if j['noif'] else d['dc']
        names = expected(j, e)
        mv, ua = dc.vgap * 1e3, dc.vgap / dc.rn * 1e6
        out[names[0]] = [(dc.voltage * mv, dc.current * ua)]
        if not j['noif']:
            out[names[1]] = [(dc.voltage * mv, dc.current * ua)] + if_curves(dc)
    elif j['kind'] == 'pumped':
        p = d['ps'][j['i']]
        m = p.current != 0
        mv, ua = p.vgap * 1e3, p.vgap / p.rn * 1e6
        un, pu = (p.voltage_dc * mv, p.current_dc * ua), (p.voltage[m] * mv, p.current[m] * ua)
        want = {'-iv.png': [un, pu]}
        if j['i'] != NOIF:
            h, c = p.if_hot[:, 1] != 0, p.if_cold[:, 1] != 0
            want['-iv-if.png'] = [un, pu, (p.if_hot[h, 0] * mv, p.if_hot[h, 1]), (p.if_cold[c, 0] * mv, p.if_cold[c, 1])]
            want['-tn.png'] = [(p.if_hot[h, 0] * mv, p.tn[h]), best(p)]
        if j['i'] != NOIV:
            want['-sim.png'], want['-err-surf.png'] = [un, pu, simulated(p)], [(None, p.err_surf)]
        for n in expected(j, e):
            for suf, w in want.items():
                if os.path.basename(n) == str(FREQS[e][j['i']]) + suf:
                    out[n] = w
    elif j['kind'] == 'one':
        p = d['ps'][j['i']]
        m, h, c = p.current != 0, p.if_hot[:, 1] != 0, p.if_cold[:, 1] != 0
        mv, ua = p.vgap * 1e3, p.vgap / p.rn * 1e6
        un, pu, v = (p.voltage_dc * mv, p.current_dc * ua), (p.voltage[m] * mv, p.current[m] * ua), p.if_hot[:, 0] * mv
        out[expected(j, e)[0]] = {'plot_iv': [un, pu], 'plot_if': [(v, p.if_hot[:, 1]), (v, p.if_cold[:, 1])],
                                  'plot_ivif': [un, pu, (v[h], p.if_hot[h, 1]), (v[c], p.if_cold[c, 1])],
                                  'plot_noise_temp': [(v[h], p.tn[h]), best(p)], 'plot_yfac_noise_temp': [(v, p.tn)],
                                  'plot_gain_noise_temp': [(v, p.gain), (v, p.tn)], 'plot_gain': [(v, p.gain * 100)]}[j['plot']]
    elif j['kind'] == 'oned':
        dc = d['dc']
        mv, ua = dc.vgap * 1e3, dc.vgap / dc.rn * 1e6
        v, i = dc.voltage * mv, dc.current * ua
        m = (-0.2 < v) & (v < 0.2)
        out[expected(j, e)[0]] = {'plot_dciv': [(v, i)], 'plot_offset': [(v[m], i[m])],
                                  'plot_if_noise': [(v, i)] + if_curves(dc)}[j['plot']]
    elif j['kind'] == 'overall':
        dc, ps = d['dc'], [d['ps'][i] for i in j['sel']]
        f = [p.freq for p in ps]
        good = [p for p in ps if p.fit_good]
        fg = [p.freq for p in good]
        rn, vg = dc.rn, dc.vgap
        tn = (f, [p.tn_best for p in ps])
        o = 'overall-results/'
        out[o + 'iv_curves.png'] = [(dc.voltage * mv, dc.current * ua)] + [(p.voltage * mv, p.current * ua) for p in ps]
        out[o + 'rdyn.png'] = [(f, [p.zj_if for p in ps])]
        for n in ('noise_temperature.png', 'noise_temperature_logy.png', 'noise_temperature_spline_fit.png'):
            out[o + n] = [tn]
        out[o + 'noise_temperature_and_gain.png'] = [tn, (f, [p.g_db for p in ps])]
        out[o + 'if_noise.png'] = [([p.freq for p in ps if p.good_if_noise_fit], [p.if_noise for p in ps if p.good_if_noise_fit])]
        out[o + 'embedding_impedance.png'] = [(fg, [(p.zt * p.rn).real for p in good]), (fg, [(p.zt * p.rn).imag for p in good])]
        out[o + 'embedding_impedance_all.png'] = [(f, [(p.zt * p.rn).real for p in ps]), (f, [(p.zt * p.rn).imag for p in ps])]
        out[o + 'embedding_voltage.png'] = [(fg, [p.vt * p.vgap * 1e3 for p in good])]
        out[o + 'drive_level.png'] = [(f, [p.alpha for p in ps])]
        zj = [complex(p.zw) * rn for p in ps]
        out[o + 'junction_impedance.png'] = [(f, [z.real for z in zj]), (f, [z.imag for z in zj])]
    return out


def _same_digest(a, b):
    if a == b:
        return True
    if ':' in a or ':' in b:
        return False
    x, y = [[float(v) for q in s.split() for v in q.split(',')] for s in (a, b)]
    return len(x) == len(y) and all(abs(p - q) <= 2e-6 * max(abs(p), abs(q)) + 1e-12 or p != p and q != q for p, q in zip(x, y))


def check_figures(j, e, var, files):
    """the figures show the measured data (drawn with the stub renderer)"""
    for n, want in curves(j, e, var).items():
        text = files[n].decode('latin-1')
        if not text.startswith('\x89SIMPNG'):
            return None
        have = re.findall(r'^line .* x=(.*) y=(.*) c=', text, re.M)
        for x, y in want:
            if x is None:
                ok = ' '.join(re.findall(r'^coll (.*)$', text, re.M))
                with np.errstate(all='ignore'):
                    z = np.log10(y)
                if plots._arr(z.T.ravel()).split(':')[-1] not in ok and plots._arr(z.ravel()).split(':')[-1] not in ok:
                    return '%s does not show the error surface' % n
            elif not any(_same_digest(a, plots._arr(x)) and _same_digest(b, plots._arr(y)) for a, b in have):
                return '%s does not show the data it was given (%d curves, expected x=%s y=%s)' % (n, len(have), plots._arr(x), plots._arr(y))
    return None


def how(j):
    return '%s%s' % (j['kind'], '(%s)' % j['plot'] if 'plot' in j else '')


def diff_files(want, got, names):
    for n in sorted(names):
        if n not in got:
            return 'missing', n
        if got[n] != want[n]:
            return 'wrong', '%s (%d bytes, undisturbed %d bytes)' % (n, len(got[n]), len(want[n]))
    return None


class Base(World):
    needs_solo = True
    real = ['qmix.exp.exp_data (plotting and export)', 'qmix.harmonic_balance, qtcurrent (simulated curve)', 'qmix.circuit.save_info',
            'matplotlib figures and artists', 'matplotlib/PIL PNG writer (some runs)', 'numpy.savetxt']
    stubs = ['disk', 'rasteriser (digest of the drawn artists; some runs use the real one at low resolution)', 'process table', 'terminal', 'clock']

    def prepare(self):
        prepare()
        plots.warm()
        plots.install()

    def want(self, j, e, var, plan, steps=False):
        r = undisturbed(j, e, var, plan, steps)
        names = expected(j, e)
        d = diff_files(r[0], r[0], names)
        return r, names, d


# ------------------------------------------------------------------------ C14
class Report(Base):
    id = 'export-report'
    run_timeout = 150
    budget = {'quick': (800, 150), 'thorough': (20000, 780)}
    rule = ('1-3 export attempts on a simulated disk, each disturbed by errors, a full disk, torn writes, a crash (optionally with power '
            'loss) or an interrupt at a chosen operation, each normal return checked for completeness; then the export is run again '
            'undisturbed and compared with a first export into an empty folder; non-trivial: at least one fault fired')
    state_measure = 'distinct (export kind, fault, file-system operation hit, outcome)'
    assumptions = ['power loss is only applied after a crash', 'other files than those of the export are not judged']

    def gen(self, rng, tier):
        e = rng.randrange(2)
        base = gen_job(rng)
        rounds = []
        for k in range(rng.pick({1: 5, 2: 3, 3: 1})):
            j = base if rng.chance(0.7) else gen_job(rng)
            if base['kind'] == 'pumped' and rng.chance(0.35):
                # another measurement, the same folders
                j = dict(base, i=rng.randrange(6))
            mode = rng.pick({'error': 5, 'crash': 4, 'interrupt': 2, 'benign': 2, 'clean': 1, 'perm': .7})
            r = dict(job=j, var=rng.pick({0: 3, 1: 1, 2: 1}), mode=mode)
            if mode == 'error':
                kinds = ['ENOSPC', 'EIO', 'EACCES', 'EMFILE', 'enospc_partial', 'close_EIO']
                r['faults'] = [[round(rng.random(), 4), rng.choice(kinds), round(rng.random(), 2)] for _ in range(rng.pick({1: 4, 2: 1}))]
                r['sticky'] = rng.chance(0.3)
                r['focus'] = rng.pick({'any': 2, 'write': 3, 'open-w': 2, 'close': 1, 'mkdir': 1})
                if rng.chance(0.5):
                    # one of the files of this export cannot be written
                    r['target'] = round(rng.random(), 4)
                    r['faults'] = [[0.0, rng.choice(list(simfs.ERRNOS) + ['enospc_partial', 'close_EIO']), round(rng.random(), 2)]]
                    r['focus'] = rng.pick({'open-w': 3, 'write': 2, 'close': 1})
            elif mode == 'crash':
                r['faults'] = [[round(rng.random(), 4), rng.choice(['crash', 'crash_mid']), round(rng.random(), 2)]]
                r['power'] = rng.chance(0.4)
                r['torn'] = rng.randrange(1 << 20)
                r['focus'] = rng.pick({'any': 2, 'write': 3, 'mkdir': 1})
            elif mode == 'interrupt':
                r['at'] = round(rng.random(), 5)
                r['exc'] = rng.choice(['KeyboardInterrupt', 'MemoryError'])
            elif mode == 'benign':
                r['faults'] = [[round(rng.random(), 4), rng.choice(['short', 'slow', 'short']), round(rng.random(), 2)] for _ in range(rng.randint(1, 8))]
                r['focus'] = rng.pick({'any': 1, 'write': 3})
            rounds.append(r)
        return dict(e=e, rounds=rounds, last=dict(job=base, var=rng.pick({0: 2, 1: 1, 2: 1})), folder=rng.choice(['out', 'out/', 'a/b/out', 'abs', 'path']),
                    bufsize=rng.choice([8192, 512, 8192]), render='real' if rng.chance(0.12) else 'stub')

    def execute(self, plan, run):
        try:
            self.execute_(plan, run)
        except ExportFails as x:
            run.violate('always-fails', str(x))

    def execute_(self, plan, run):
        e = plan['e']
        base = os.path.join(os.getcwd(), 'disk')
        os.mkdir(base)
        os.chdir(base)
        plots.MODE = plan['render']
        plots.fresh_process()
        plots.reset_numpy_openers()
        rel = plan['folder'] if plan['folder'] not in ('abs', 'path') else 'out'
        root = os.path.normpath(os.path.join(base, rel))
        folder = {'abs': root, 'path': pathlib.Path(rel)}.get(plan['folder'], rel)
        clock = SimClock()
        outcomes = []
        explicit = copy.deepcopy(plan)
        run.explicit = explicit
        dirty, known = set(), set()
        with simfs.SimFS(base, bufsize=plan['bufsize'], clock=clock) as fs:
            for k, r in enumerate(plan['rounds'] + [dict(plan['last'], mode='final')]):
                j, var, mode = r['job'], r['var'], r['mode']
                (want, wdirs, nops, nsteps), names, missing = self.want(j, e, var, plan, mode == 'interrupt')
                if missing:
                    run.violate('incomplete-%s' % j['kind'], 'an undisturbed %s of experiment %d does not write %s' % (how(j), e, missing[1]))
                    return
                bad = check_texts(j, e, var, want) or check_figures(j, e, var, want)
                if bad:
                    run.violate('values-%s' % j['kind'], bad)
                    return
                lost = [d for d in expected_dirs(j) if d not in wdirs]
                if lost:
                    run.violate('folders-%s' % j['kind'], 'an undisturbed %s does not make the folder %s' % (how(j), lost[0]))
                    return
                before = fingerprint(j, e, var)
                setup_job(j, e, var, root, 'data')
                fs.proc = simfs.Proc('p%d' % k)
                fs.internal = True
                there = tree(root)[0]
                fs.internal = False
                fs.fired.clear()
                fs.ops.clear()
                fs.sync()
                self.arm(fs, r, nops, explicit, k, sorted(want))
                st = Stepper()
                if mode == 'interrupt':
                    st.raise_at = r['step'] if 'step' in r else max(1, int(r['at'] * nsteps))
                    explicit['rounds'][k]['step'] = st.raise_at
                    st.exc = {'KeyboardInterrupt': KeyboardInterrupt, 'MemoryError': MemoryError}[r['exc']]('injected')
                err = None
                try:
                    if mode == 'interrupt':
                        with st:
                            do_job(j, e, var, folder, 'data')
                    else:
                        do_job(j, e, var, folder, 'data')
                except Killed as x:
                    err = x
                except (KeyboardInterrupt, MemoryError) as x:
                    if mode != 'interrupt' or not st.fired:
                        raise
                    err = x
                except Exception as x:
                    if not any(f[0] not in ('short', 'slow') for f in fs.fired) and not (st.fired and mode == 'interrupt'):
                        run.violate('raises-%s' % j['kind'], '%s in round %d (%s) raised %r although nothing failed' % (how(j), k, mode, x))
                        return
                    err = x
                fs.faults = {}
                fs.on_op = None
                run.sim_time += 1e-3 * fs.n
                for a, b, c in fs.fired:
                    run.fault('%s@%s' % (a, b))
                if st.fired:
                    run.fault('interrupt')
                run.steps += st.n
                run.event(k, how(j), var, mode, len(fs.ops), list(fs.fired), st.fired, type(err).__name__)
                outcomes.append((j['kind'], mode, sorted({(a, b) for a, b, c in fs.fired}), type(err).__name__))
                fs.internal = True
                got, gdirs = tree(root)
                fs.internal = False
                gone = [f for f in there if f in known and f not in want and got.get(f) != there[f]]
                if gone:
                    run.violate('others-%s' % j['kind'], 'round %d: %s %s %s, which belongs to another export' % (
                        k, how(j), 'changed' if gone[0] in got else 'removed', gone[0]))
                    return
                known.update(want)
                if err is None:
                    d = diff_files(want, got, names)
                    if d:
                        run.violate('%s-%s' % (d[0], j['kind']), 'round %d: %s returned normally (%s; faults %s) but %s is %s' % (
                            k, how(j), mode, fs.fired, d[1], d[0]))
                        return
                    run.probe('complete-%s' % j['kind'])
                    # a round that was cut off may leave a temporary file behind; this one was not
                    stale = [n for n in got if n not in want and n not in dirty and n not in there]
                    if stale:
                        run.violate('stray-%s' % j['kind'], '%s left %s, which an undisturbed export does not write' % (how(j), stale[0]))
                        return
                else:
                    run.probe('reported' if not isinstance(err, Killed) else 'crashed')
                    # whatever this export may write is now undefined until it is run again
                dirty.update(want)
                if fs.proc.dead:
                    plots.fresh_process()
                    if r.get('power'):
                        fs.down = True
                        what = fs.power_loss(Rng('torn', r['torn']))
                        fs.down = False
                        run.fault('power-loss')
                        run.event('power', len(what))
                if fingerprint(j, e, var) != before:
                    run.violate('data-changed-%s' % j['kind'], '%s changed the data it exports' % how(j))
                    return
        run.state = str(outcomes)

    def arm(self, fs, r, nops, explicit, k, names):
        """absolute operation numbers; 'focus' moves a fault to the next operation of that kind"""
        fs.faults = {}
        fs.on_op = None
        if not r.get('faults'):
            return
        if 'abs' in r:
            n0 = fs.n
            fs.faults = {n0 + n: dict(kind=kd, arg=a) for n, kd, a in r['abs']}
            return
        n0 = fs.n
        todo = sorted((max(1, int(f * nops)), kd, a) for f, kd, a in r['faults'])
        focus = r.get('focus', 'any')
        used = []
        explicit['rounds'][k]['abs'] = used
        if 'target' in r and names:
            name = os.path.basename(names[min(len(names) - 1, int(r['target'] * len(names)))])
            kd, a = r['faults'][0][1:]

            def on_name(fs_, kind, rel, data):
                if kind == focus and name in os.path.basename(rel):
                    fs_.faults[fs_.n] = dict(kind=kd, arg=a)
                    used.append([fs_.n - n0, kd, a])
            fs.on_op = on_name
            return

        def on_op(fs_, kind, rel, data):
            while todo and fs_.n - n0 >= todo[0][0]:
                if focus != 'any' and kind != focus:
                    return
                n, kd, a = todo.pop(0)
                fs_.faults[fs_.n] = dict(kind=kd, arg=a)
                used.append([fs_.n - n0, kd, a])
                if r.get('sticky') and kd in ('ENOSPC', 'EIO', 'EACCES'):
                    for q in range(1, 40):
                        fs_.faults[fs_.n + q] = dict(kind=kd, arg=a)
                        used.append([fs_.n - n0 + q, kd, a])
                return
        fs.on_op = on_op

    def shrink(self, plan):
        rs = plan['rounds']
        if rs:
            for k in range(len(rs)):
                yield dict(plan, rounds=rs[:k] + rs[k + 1:])
        if plan['render'] == 'real':
            yield dict(plan, render='stub')
        if plan['folder'] != 'out':
            yield dict(plan, folder='out')
        if plan['bufsize'] != 8192:
            yield dict(plan, bufsize=8192)
        for k, r in enumerate(rs):
            def sub(**kw):
                return dict(plan, rounds=rs[:k] + [dict(r, **kw)] + rs[k + 1:])
            if r.get('abs') and len(r['abs']) > 1:
                for i in range(len(r['abs'])):
                    yield sub(abs=r['abs'][:i] + r['abs'][i + 1:])
                yield sub(abs=r['abs'][:1])
            if r['var']:
                yield sub(var=0)
            if r.get('power'):
                yield sub(power=False)
            if r['mode'] != 'clean':
                yield dict(plan, rounds=rs[:k] + [dict(job=r['job'], var=r['var'], mode='clean')] + rs[k + 1:])
        if plan['last']['var']:
            yield dict(plan, last=dict(plan['last'], var=0))


# ------------------------------------------------------------------------ C13
class ProcScheduler(Scheduler):
    """simulated processes: pyplot registry, rcParams, cwd and FP settings are per process"""

    def _yield(self, t, where):
        st = plots.save_process()
        super()._yield(t, where)
        plots.restore_process(st)


class Concurrent(Base):
    id = 'export-concurrent'
    run_timeout = 150
    budget = {'quick': (560, 170), 'thorough': (20000, 780)}
    rule = ('2-4 simulated processes, each 1-3 exports of the same experiment into one folder, interleaved at every file-system operation '
            'by the seeded scheduler; processes may be killed or hit by disk errors and are then restarted; files compared with those of '
            'lone exports; non-trivial: at least two process switches')
    state_measure = 'distinct orders of (process, operation, path) on shared paths'
    assumptions = ['exporters of one folder export the same experiment (files of equal name have equal content)',
                   'processes are switched at file-system operations only; their memory is disjoint']

    def gen(self, rng, tier):
        e = rng.randrange(2)
        n = rng.pick({2: 5, 3: 3, 4: 1.5})
        kinds = rng.pick([(None, 4), ({'pumped': 1}, 2), ({'overall': 1, 'init': 1}, 2), ({'dc': 1, 'pumped': 1}, 1), ({'cct': 2, 'one': 1}, .5)])
        same = gen_job(rng, kinds) if rng.chance(0.4) else None
        procs = []
        for k in range(n):
            js = [same if same and m == 0 else gen_job(rng, kinds) for m in range(rng.pick({1: 5, 2: 2, 3: 1}))]
            procs.append(dict(jobs=js, folder=rng.choice(['out', 'out/', 'abs', 'path'])))
        faults = []
        for k in range(n):
            if rng.chance(0.15):
                faults.append([k, int(rng.logu(1, 200)), rng.choice(['crash', 'crash', 'EIO', 'ENOSPC', 'crash_mid']), round(rng.random(), 2)])
        cs = {}
        sel = gen_sel(rng)
        okw = rng.choice([None, None, dict(tn_max=300), dict(f_range=[200, 350]), dict(figsize=[5, 4])])
        vmax = rng.choice([None, None, 3.5])
        uniform = rng.chance(0.9)
        for k, pr in enumerate(procs):
            for m, j in enumerate(pr['jobs']):
                # the exporters are copies of one script: the same options
                if uniform and j['kind'] in ('overall', 'pumped'):
                    pr['jobs'][m] = j = {a: b for a, b in j.items() if a not in ('kw', 'vmax')}
                    if j['kind'] == 'overall':
                        j['sel'] = sel
                        if okw:
                            j['kw'] = okw
                    if j['kind'] == 'pumped' and vmax:
                        j['vmax'] = vmax
            # circuits saved under one name must be equal
            for m, j in enumerate(pr['jobs']):
                if j['kind'] == 'cct':
                    pr['jobs'][m] = cs.setdefault(j['i'], j)
        return dict(e=e, var=rng.pick({0: 2, 1: 1}), procs=procs, faults=faults, pre=rng.pick({'none': 4, 'root': 2, 'some': 2, 'all': 1, 'old': 4}),
                    other=gen_job(rng, {'pumped': 3, 'overall': 1, 'dc': 1, 'spectrum': 1, 'one': 1}),
                    parent=rng.chance(0.3), mean=rng.choice([1, 1, 2, 4, 10, 40, -1]), sseed=rng.randrange(1 << 30),
                    bufsize=rng.choice([8192, 512, 8192]), render='real' if rng.chance(0.05) else 'stub', chase=rng.pick({0: 4, .3: 2, .7: 2}),
                    meet=rng.pick({0: 2, .05: 1, .15: 2, .5: 2, 1: 1}),
                    meetkill=[rng.randrange(2), rng.randint(1, 8), rng.choice(['crash', 'crash', 'EIO', 'crash_mid'])] if rng.chance(0.15) else None)

    def execute(self, plan, run):
        try:
            self.execute_(plan, run)
        except ExportFails as x:
            run.violate('always-fails', str(x))

    def execute_(self, plan, run):
        e, var = plan['e'], plan['var']
        base = os.path.join(os.getcwd(), 'disk')
        os.mkdir(base)
        os.chdir(base)
        plots.MODE = plan['render']
        plots.fresh_process()
        plots.reset_numpy_openers()
        rel = 'x/y/out' if plan['parent'] else 'out'
        root = os.path.join(base, rel)
        want, wdirs, names = {}, set(), set()
        owner = {}
        for k, p in enumerate(plan['procs']):
            for j in p['jobs']:
                (files, dirs, _, _), nm, missing = self.want(j, e, var, plan)
                if missing:
                    run.violate('incomplete-%s' % j['kind'], 'a lone %s does not write %s' % (how(j), missing[1]))
                    return
                for f, c in files.items():
                    if f in want and want[f] != c:
                        jj = owner[f]
                        if not self.same_measurement(jj, j):
                            run.violate('collision', '%s and %s both write %s, with different content' % (how(jj), how(j), f))
                            return
                        names.discard(f)
                        run.probe('ambiguous-file')
                        want[f] = None
                        continue
                    if f not in want:
                        want[f] = c
                        owner[f] = j
                        names.add(f)
                wdirs.update(dirs)
                wdirs.update(expected_dirs(j))
        if plan['pre'] != 'none':
            _makedirs(root)
        old = {}
        if plan['pre'] == 'old':
            # results of earlier days: the same exports with other data, cut off ones, and other measurements
            r = Rng(plan['sseed'], 'old')
            old = dict(undisturbed(plan['other'], e, 2, plan)[0]) if plan.get('other') else {}
            for f in sorted(want):
                if f in old or r.chance(0.7):
                    old[f] = (want[f] or b'')[r.randrange(50):] + r.choice([b'', b'earlier\n', b'x' * 3000])
            for f in sorted(old):
                _makedirs(os.path.dirname(os.path.join(root, f)))
                with simfs._open(os.path.join(root, f), 'wb') as fh:
                    fh.write(old[f])
        if plan['pre'] in ('some', 'all'):
            for d in sorted(wdirs)[:None if plan['pre'] == 'all' else max(1, len(wdirs) // 2)]:
                _makedirs(os.path.join(root, d))
        for k, p in enumerate(plan['procs']):
            for j in p['jobs']:
                setup_job(j, e, var, root, 'data')
        n = len(plan['procs'])
        res = [None] * n
        rng = Rng(plan['sseed'])
        fs = simfs.SimFS(base, bufsize=plan['bufsize'], clock=SimClock())
        fs.sched_points = True
        kills = {k: (at, kind, a) for k, at, kind, a in plan['faults'] if k < n}
        count = [0] * n
        import _thread

        def on_op(fs_, kind, rel_, data):
            k = int(fs_.cur().name[1:])
            count[k] += 1
            if k in kills and count[k] == kills[k][0]:
                fs_.faults[fs_.n] = dict(kind=kills[k][1], arg=kills[k][2])
        fs.on_op = on_op
        chase = Rng(plan['sseed'], 'chase') if plan.get('chase') else None

        meet, mkill = plan.get('meet') or 0, plan.get('meetkill')
        parked, reached, seen, hot = set(), {}, {}, [0]

        def before_op(fs_, kind, path):
            rel_, me = fs_._rel(path), fs_.cur().name
            k = int(me[1:])
            # meet where it matters: who gets to a chosen operation waits until another process gets there too ...
            if meet and kind in ('open-w', 'mkdir', 'rename', 'remove', 'list', 'truncate', 'rmdir'):
                d = rel_ if kind == 'list' else os.path.dirname(rel_)
                m = seen[k, d] = seen.get((k, d), 0) + 1
                if Rng(plan['sseed'], 'meet', d, m).chance(meet):
                    who = reached.setdefault((d, m), [])
                    who.append(k)
                    if len(who) == 2:
                        parked.difference_update(who)
                        hot[0] = Rng(plan['sseed'], 'hot', d, m).choice([6, 12, 30])
                        run.probe('rendezvous')
                        if mkill and not kills:
                            kills[who[mkill[0]]] = (count[who[mkill[0]]] + mkill[1], mkill[2], 0.5)
                    elif len(who) == 1:
                        parked.add(k)
                    sch.cut()
                    return
            # ... and processes switch when another one was at this very path a moment ago
            if chase and any(c == rel_ and a != me for a, b, c in fs_.ops[-25:]) and chase.chance(plan['chase']):
                sch.cut()
        if chase or meet:
            fs.before_op = before_op

        def body(k):
            def fn(t):
                plots.fresh_process()
                me = fs.procs[_thread.get_ident()] = simfs.Proc('p%d' % k)
                p = plan['procs'][k]
                folder = {'abs': root, 'path': pathlib.Path(rel), 'out/': rel + '/'}.get(p['folder'], rel)
                try:
                    for j in p['jobs']:
                        do_job(j, e, var, folder, 'data')
                    res[k] = 'ok'
                except BaseException as x:
                    res[k] = x
                del me
            return fn
        base_lazy = lazy_schedule(rng, n, abs(plan['mean']))

        def lazy(runnable, prev):
            runnable = [i for i in runnable if i not in parked] or runnable
            if hot[0]:
                hot[0] -= 1
                seg = [rng.choice(runnable), rng.choice([1, 1, 2, 3])]
            elif plan['mean'] == -1:
                idx = [i for i in runnable if i != prev] or runnable
                seg = [rng.choice(idx), int(rng.logu(1, 400))]
            else:
                seg = base_lazy(runnable, prev)
            parked.discard(seg[0])
            return seg
        sch = ProcScheduler([body(k) for k in range(n)], plan.get('segs'), lazy)
        with fs:
            sch.run()
            run.explicit = dict(plan, segs=sch.used)
            run.steps = fs.n
            run.sim_time = 1e-3 * fs.n
            if sch.switches:
                run.fault('process-switch', sch.switches)
            run.nontrivial = sch.switches >= 2
            for a, b, c in fs.fired:
                run.fault('%s@%s' % (a, b))
            run.event([(a, b, c) for a, b, c in fs.ops])
            shared = {}
            for a, b, c in fs.ops:
                if b not in ('stat', 'read'):
                    shared.setdefault(c, []).append((a, b))
            run.state = format(zlib.crc32(repr(sorted((c, v) for c, v in shared.items() if len({a for a, _ in v}) > 1)).encode()), '08x')
            hit = {k for k, (at, kind, a) in kills.items() if count[k] >= at}
            for k in range(n):
                run.event(k, type(res[k]).__name__)
                if res[k] == 'ok':
                    run.probe('process-finished')
                    continue
                if k not in hit:
                    if isinstance(res[k], Exception) and not isinstance(res[k], (simfs.Killed,)):
                        run.violate('export-fails', 'process %d (%s) failed because others export at the same time: %r' % (
                            k, ', '.join(how(j) for j in plan['procs'][k]['jobs']), res[k]))
                        return
                    raise res[k] if isinstance(res[k], BaseException) else RuntimeError('process %d did not run' % k)
            # files of exporters that all finished are complete now
            broken = [k for k in range(n) if res[k] != 'ok']
            undefined = set()
            for k in broken:
                for j in plan['procs'][k]['jobs']:
                    undefined.update(undisturbed(j, e, var, plan)[0])
            kept = {f: c for f, c in old.items() if f not in want}
            if self.judge(run, root, dict(want, **kept), (names - undefined) | set(kept), wdirs if not broken else [],
                          None if broken else set(want) | set(old), 'after all processes finished'):
                return
            # restart of the others
            if broken:
                # what a crash cut off may have left a temporary file
                fs.internal = True
                there = tree(root)[0]
                fs.internal = False
                fs.sched_points = False
                fs.on_op = None
                fs.faults = {}
                for k in broken:
                    plots.fresh_process()
                    fs.procs.clear()
                    fs.proc = simfs.Proc('r%d' % k)
                    for j in plan['procs'][k]['jobs']:
                        setup_job(j, e, var, root, 'data')
                        do_job(j, e, var, rel, 'data')
                    run.fault('process-restart')
                self.judge(run, root, dict(want, **kept), names | set(kept), wdirs, set(want) | set(there), 'after the restart of %d processes' % len(broken))

    @staticmethod
    def same_measurement(a, b):
        """the same measurement exported with different options: either version is right"""
        return a['kind'] == b['kind'] and (a['kind'] in ('overall', 'dc') or a['i'] == b['i'])

    def judge(self, run, root, want, names, dirs, only, when):
        fs = simfs.active
        fs.internal = True
        got, gd = tree(root)
        fs.internal = False
        d = diff_files(want, got, names)
        if d:
            run.violate(d[0] + '-file', '%s: %s is %s' % (when, d[1], d[0]))
            return True
        for x in dirs:
            if x not in gd:
                run.violate('missing-folder', '%s: folder %s is missing' % (when, x))
                return True
        if only is not None:
            extra = [f for f in got if f not in only]
            if extra:
                run.violate('stray-file', '%s: %s was written by nobody' % (when, extra[0]))
                return True
        return False

    def shrink(self, plan):
        ps = plan['procs']
        segs = plan.get('segs')
        if len(ps) > 2:
            for k in range(len(ps)):
                mp = {i: (i if i < k else i - 1) for i in range(len(ps)) if i != k}
                p = dict(plan, procs=ps[:k] + ps[k + 1:], faults=[[mp[f[0]]] + f[1:] for f in plan['faults'] if f[0] != k])
                if segs:
                    p['segs'] = [[mp[i], s] for i, s in segs if i != k]
                yield p
        for k in range(len(ps)):
            if len(ps[k]['jobs']) > 1:
                for m in range(len(ps[k]['jobs'])):
                    yield dict(plan, procs=ps[:k] + [dict(ps[k], jobs=ps[k]['jobs'][:m] + ps[k]['jobs'][m + 1:])] + ps[k + 1:])
        for k in range(len(plan['faults'])):
            yield dict(plan, faults=plan['faults'][:k] + plan['faults'][k + 1:])
        if plan.get('meetkill'):
            yield dict(plan, meetkill=None)
        if plan['render'] == 'real':
            yield dict(plan, render='stub')
        if plan['pre'] != 'none':
            yield dict(plan, pre='none')
        if plan['parent']:
            yield dict(plan, parent=False)
        if segs:
            from .threads import shrink_segments
            yield from shrink_segments(plan)

