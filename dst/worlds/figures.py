"""C17: plotting in a session with other open figures, failing disks and interrupts."""
import os
import warnings
import zlib

import numpy as np

from .. import core, ops, plots, simfs
from ..core import World
from ..rng import Rng
from ..sched import Stepper
from . import export

TWO = ('plot_if_noise', 'plot_ivif', 'plot_noise_temp', 'plot_yfac_noise_temp', 'plot_gain_noise_temp')
PUMPED = export.PLOT1 + ['plot_error_surface', 'plot_simulated']
RPLOT = ['plot', 'plot_interpolation', 'show_current']
NOVMAX = ('plot_offset', 'plot_if_noise', 'plot_error_surface', 'plot', 'plot_interpolation', 'show_current')
RC = [['axes.grid', True], ['lines.linewidth', 3.0], ['figure.figsize', [5.0, 3.0]], ['axes.prop_cycle', None], ['savefig.dpi', 90],
      ['figure.autolayout', False], ['axes.labelsize', 8.0], ['font.size', 7.0], ['axes.facecolor', '#eeeeee'], ['lines.marker', '.'],
      ['legend.loc', 'upper left'], ['image.cmap', 'plasma'], ['xtick.direction', 'in'], ['axes.labelpad', 6.0], ['pcolor.shading', 'auto'],
      ['savefig.bbox', 'tight'], ['figure.dpi', 70.0], ['axes.formatter.useoffset', False],
      ['interactive', True]]
RESP = {}


def prepare():
    export.prepare()
    if not RESP:
        for n, k in enumerate((dict(kind='iv', p=20, q=30), dict(kind='perfect'))):
            RESP[n] = ops.build_resp(k)


def target_object(s):
    d = export.DATA[s['e']]
    o = s['on']
    return {'dc': d['dc'], 'dc0': d['dc0'], 'p': d['ps'][s['i']], 'r': RESP[s['i'] % 2]}[o]


def make_axes(t):
    """axes of the caller"""
    import matplotlib.pyplot as plt
    if t['style'] == 'oo':
        from matplotlib.backends.backend_agg import FigureCanvasAgg
        from matplotlib.figure import Figure
        fig = Figure(figsize=t['size'])
        FigureCanvasAgg(fig)
        axs = [fig.add_subplot(1, 2, 1), fig.add_subplot(1, 2, 2)]
    else:
        fig, a = plt.subplots(2, figsize=t['size'])
        axs = list(a)
    if t['style'] == 'twin':
        axs[1] = axs[0].twinx()
    if t['own']:
        axs[0].plot([0, 1, 2], [3, 1, 2], label='own')
    return fig, axs


def call(s, fname, axs):
    kw = dict(s['kw'])
    if fname is not None:
        kw['fig_name'] = fname
    if axs is not None:
        kw['ax'] = tuple(axs) if s['m'] in TWO else axs[0]
    return getattr(target_object(s), s['m'])(**kw)


def set_rc(rc):
    import matplotlib
    from cycler import cycler
    for k, v in rc:
        if k == 'interactive':
            matplotlib.interactive(v)
            continue
        matplotlib.rcParams[k] = cycler(color=['c', 'm', 'y']) if k == 'axes.prop_cycle' else v


def solo_picture(payload):
    """the same plot as the very first thing a program does"""
    plots.install()
    plots.MODE = 'stub'
    plots.fresh_process()
    import matplotlib.pyplot as plt
    set_rc(payload['rc'])
    s = payload['s']
    axs = fig = None
    if s['target'] in ('ax', 'axfile'):
        fig, axs = make_axes(s['t'])
    nums = plt.get_fignums()
    r = call(s, None, axs)
    if fig is None:
        new = [n for n in plt.get_fignums() if n not in nums]
        if not new:
            return None
        fig = plt.figure(new[0])
    return plots.state(fig), r is None


core.SOLO_HANDLERS['figure'] = solo_picture


def debug_import(payload):
    from qmix.exp.iv_data import dciv_curve, iv_curve
    from .. import meas
    j = dict(meas.junction(Rng('debug', payload['j'])))
    kw = dict(vrn=(3.5e-3, 4.8e-3), npts=1501)
    dbg = dict(debug=payload['debug'])
    v, i, dc = dciv_curve(meas.matrix(*meas.iv_samples(j, 401), 'mV', 'mA'), **kw, **dbg)
    if not payload['pumped']:
        return ops.norm([v, i])
    return ops.norm(iv_curve(meas.matrix(*meas.iv_samples(j, 401, pump=(230., .8), k=1), 'mV', 'mA'), dc, npts=1501, **dbg))


core.SOLO_HANDLERS['debug_import'] = debug_import


class Figures(World):
    id = 'figures'
    needs_solo = True
    run_timeout = 200
    budget = {'quick': (700, 150), 'thorough': (25000, 780)}
    rule = ('histories of plots (new figure, axes of the caller, object-oriented figures, files, whole exports) among other open figures, '
            'with a changing current figure, changed plot defaults, failing saves and interrupts at QMix statements; every picture is '
            'compared with the same plot in a pristine process; non-trivial: another figure is open or a fault was injected')
    state_measure = 'distinct sequences of (method, target, outcome, open figures)'
    real = ['all plotting methods of DCData, PumpedData, RespFn', 'plot_overall_results, plot_if_spectrum, plot_all', 'pyplot and artists']
    stubs = ['rasteriser (digest of all artists)', 'disk', 'terminal']
    assumptions = ['Agg backend', 'pictures are compared by a digest of axes, lines, collections, texts and legends']

    def prepare(self):
        prepare()

    def gen(self, rng, tier):
        # the style of the user
        steps = [dict(a='rc', rc=[rng.choice(RC) for _ in range(rng.randint(2, 10))])] if rng.chance(0.6) else []
        usual = rng.chance(0.5) and {on: rng.choice(ms) for on, ms in dict(dc=export.PLOTD, dc0=export.PLOTD, p=PUMPED, r=RPLOT).items()}
        for _ in range(rng.randint(3, 12)):
            a = rng.pick({'plot': 12, 'user-figure': 3, 'current': 3, 'close': 1, 'rc': 1, 'export': .8, 'debug': .5})
            s = dict(a=a)
            if a == 'plot':
                on = rng.pick({'dc': 3, 'p': 6, 'r': 3, 'dc0': .4})
                s.update(e=rng.randrange(2), on=on, i=rng.randrange(4))
                s['m'] = rng.choice({'dc': export.PLOTD, 'dc0': export.PLOTD, 'p': PUMPED, 'r': RPLOT}[on])
                if usual and rng.chance(0.7):
                    s['m'] = usual[on]
                s['kw'] = dict(vmax_plot=3.5) if s['m'] not in NOVMAX and rng.chance(0.2) else {}
                s['target'] = rng.pick({'new': 4, 'ax': 5, 'file': 4, 'axfile': 2})
                if s['target'] in ('ax', 'axfile'):
                    s['t'] = dict(style=rng.pick({'plt': 4, 'oo': 2, 'twin': 2}), size=rng.choice([[6, 4], [4, 4]]), own=rng.chance(.5))
                s['name'] = rng.choice(['a.png', 'b.png', 'sub/a.png'])
                if rng.chance(0.2) and s['target'] in ('file', 'axfile'):
                    s['fault'] = [rng.randint(1, 8), rng.choice(['EIO', 'ENOSPC', 'EACCES', 'close_EIO', 'missing'])]
                elif rng.chance(0.25):
                    s['interrupt'] = [int(rng.logu(1, 60)), rng.choice(['KeyboardInterrupt', 'MemoryError'])]
            elif a in ('current', 'close', 'user-figure'):
                s['n'] = rng.randrange(8)
            elif a == 'debug':
                s.update(j=rng.randrange(2), pumped=rng.chance(.5))
            elif a == 'rc':
                s['rc'] = [rng.choice(RC)]
            elif a == 'export':
                s.update(job=export.gen_job(rng, {'pumped': 2, 'overall': 1, 'dc': 2, 'spectrum': 2}), e=rng.randrange(2))
            steps.append(s)
            if 'interrupt' in s:
                # the user tries again, and again
                for _ in range(rng.randint(0, 5)):
                    steps.append(dict(s, interrupt=[int(rng.logu(2, 60)), s['interrupt'][1]]))
        return dict(steps=steps)

    def execute(self, plan, run):
        import matplotlib
        import matplotlib.pyplot as plt
        from matplotlib._pylab_helpers import Gcf
        base = os.path.join(os.getcwd(), 'disk')
        os.mkdir(base)
        os.mkdir(os.path.join(base, 'sub'))
        os.chdir(base)
        plots.install()
        plots.MODE = 'stub'
        plots.fresh_process()
        plots.reset_numpy_openers()
        rc_hist, seq, mine = [], [], {}
        faulty = False
        fs = simfs.SimFS(base)
        with fs:
            for k, s in enumerate(plan['steps']):
                a = s['a']
                nums = plt.get_fignums()
                if a == 'user-figure':
                    f, ax = plt.subplots()
                    ax.plot([0, 1, s['n']], [1, 0, 2], label='user')
                    mine[f.number] = 1
                    run.probe('other-figure-open')
                    continue
                if a == 'current':
                    if nums:
                        plt.figure(nums[s['n'] % len(nums)])
                        run.probe('current-figure-changed')
                    continue
                if a == 'close':
                    if nums:
                        plt.close(nums[s['n'] % len(nums)])
                    continue
                if a == 'rc':
                    set_rc(s['rc'])
                    rc_hist += s['rc']
                    continue
                axs = fig = None
                oo = None
                if a == 'plot' and s['target'] in ('ax', 'axfile'):
                    # the caller made the axes and went on to another figure
                    fig, axs = make_axes(s['t'])
                    if nums and s['t']['style'] != 'oo':
                        plt.figure(nums[k % len(nums)])
                    oo = s['t']['style'] == 'oo'
                order = [m.num for m in Gcf.figs.values()]
                others = {n: plots.state(Gcf.figs[n].canvas.figure) for n in order if fig is None or oo or n != fig.number}
                rc = dict.copy(matplotlib.rcParams)
                before = dict(err=np.geterr(), cwd=os.getcwd())
                if nums:
                    run.nontrivial = True
                got, exc, fired = None, None, None
                name = s.get('name') if s.get('target') in ('file', 'axfile') else None
                if a == 'plot' and 'fault' in s:
                    at, kind = s['fault']
                    if kind == 'missing':
                        name = 'nowhere/' + os.path.basename(name)
                    else:
                        fs.faults = {fs.n + at: dict(kind=kind, arg=.5)}
                nfired = len(fs.fired)
                try:
                    if a == 'export':
                        out = 'exp%d' % k
                        export.setup_job(s['job'], s['e'], 0, os.path.join(base, out), os.path.join(base, 'data%d' % k))
                        export.do_job(s['job'], s['e'], 0, out, 'data%d' % k)
                    elif a == 'debug':
                        with warnings.catch_warnings():
                            warnings.simplefilter('ignore')
                            got = debug_import(dict(s, debug=True))
                        w = core.solo('debug_import', dict(j=s['j'], pumped=s['pumped'], debug=False))
                        d = ops.same(w, got)
                        if d:
                            return run.violate('debug-changes-result', 'step %d: import without / with debug plots: %s' % (k, d))
                    elif 'interrupt' in s:
                        at, e = s['interrupt']
                        with Stepper(at, {'KeyboardInterrupt': KeyboardInterrupt, 'MemoryError': MemoryError}[e]()) as st:
                            got = call(s, name, axs)
                        fired = st.fired
                    else:
                        got = call(s, name, axs)
                except (KeyboardInterrupt, MemoryError) as e:
                    if 'interrupt' not in s:
                        raise
                    exc = e
                    run.fault('interrupt')
                except OSError as e:
                    if 'fault' not in s:
                        raise
                    exc = e
                fs.faults = {}
                disk = len(fs.fired) > nfired or (name or '').startswith('nowhere')
                if disk:
                    run.fault('save-' + s['fault'][1])
                desc = 'step %d: %s' % (k, export.how(s['job']) if a == 'export' else 'import with debug plots' if a == 'debug' else '%s (%s)' % (s['m'], s['target']))
                now = [m.num for m in Gcf.figs.values()]
                # ---- nothing else is touched, whatever happened
                for n, st in others.items():
                    if n not in Gcf.figs:
                        return run.violate('other-figure-closed', '%s closed figure %s, which it does not own' % (desc, n))
                    d = first(st, plots.state(Gcf.figs[n].canvas.figure))
                    if d:
                        return run.violate('other-figure-changed', '%s changed figure %s: %s' % (desc, n, d))
                r2 = dict.copy(matplotlib.rcParams)
                if r2 != rc:
                    return run.violate('plot-defaults', '%s changed rcParams %s' % (desc, [x for x in r2 if r2[x] != rc.get(x)][:5]))
                if os.getcwd() != before['cwd'] or np.geterr() != before['err']:
                    return run.violate('process-state', '%s changed the working directory or NumPy error handling' % desc)
                outcome = 'exc' if exc is not None else 'ok'
                new = [n for n in now if n not in order]
                seq.append((s.get('m') or a, s.get('target'), outcome, len(order)))
                if exc is not None or fired:
                    for n in new:
                        plt.close(n)
                    if fig is not None and not oo:
                        plt.close(fig)
                    continue
                if disk and len(fs.fired) == nfired:
                    w = core.solo('figure', dict(rc=rc_hist, s=s))
                    disk = not (w is None or w[1])        # nothing to plot, no file
                if disk:
                    return run.violate('lost-error', '%s returned normally although the file could not be written (%s)' % (desc, s['fault'][1]))
                if a == 'debug':
                    run.probe('debug-plots')
                    for n in new:
                        plt.close(n)
                    if nums:
                        plt.figure(nums[-1])
                    continue
                # ---- where it was told to, and only there
                if a == 'export':
                    if new:
                        return run.violate('figure-left-open', '%s left figures %s open' % (desc, new))
                    if now != order:
                        return run.violate('current-figure', '%s: order of figures %s -> %s' % (desc, order, now))
                    continue
                tgt = s['target']
                w = core.solo('figure', dict(rc=rc_hist, s=s))
                none = w is None or w[1]          # e.g. no IF data: says so and plots nothing
                want = order[:]
                if tgt == 'new' and not none:
                    if len(new) != 1 or now[-1] != new[0] or now[:-1] != order:
                        return run.violate('new-figure', '%s: figures %s -> %s' % (desc, order, now))
                    fig = Gcf.figs[new[0]].canvas.figure
                else:
                    if tgt == 'axfile' and not oo and not none:
                        want.remove(fig.number)
                    if sorted(now) != sorted(want):
                        return run.violate('figure-left-open' if len(now) > len(want) else 'other-figure-closed',
                                           '%s: figures %s -> %s' % (desc, order, now))
                    if now[-1:] != want[-1:]:
                        return run.violate('current-figure', '%s: order of figures %s -> %s' % (desc, order, now))
                if none:
                    if got is not None:
                        return run.violate('return-value', '%s returned %r' % (desc, got))
                    run.probe('nothing-to-plot')
                    continue
                if tgt in ('file', 'axfile'):
                    if got is not None:
                        return run.violate('return-value', '%s returned %r' % (desc, got))
                    fs.internal = True
                    try:
                        with simfs._open(os.path.join(base, name), 'rb') as f:
                            lines = f.read().decode('latin-1').split('\n')[1:-2]
                    except FileNotFoundError:
                        return run.violate('no-file', '%s returned normally without writing %s' % (desc, name))
                    finally:
                        fs.internal = False
                    d = first(w[0], lines)
                    if d:
                        return run.violate('picture-file', '%s: first thing in a program / here: %s' % (desc, d))
                else:
                    d = first(w[0], plots.state(fig))
                    if d:
                        return run.violate('picture', '%s: first thing in a program / here: %s' % (desc, d))
                    ret = got if isinstance(got, (tuple, list)) else [got]
                    if any(getattr(x, 'figure', None) is not fig for x in ret):
                        return run.violate('return-value', '%s returned %r' % (desc, got))
                    if axs is not None and ret[0] is not axs[0]:
                        return run.violate('return-value', '%s did not return the axes it was given' % desc)
                run.event(k, s['m'], tgt, zlib.crc32(repr(w[0]).encode()))
                run.probe('%s-%s' % (s['m'], tgt))
                if axs is not None and s['m'] in TWO and len(axs[1].lines) == 0 and s['t']['style'] != 'x':
                    return run.violate('axes-ignored', '%s drew nothing into the second axes it was given' % desc)
                if oo and tgt == 'ax':
                    run.probe('object-oriented-figure')
        run.state = format(zlib.crc32(repr(seq).encode()), '08x')

    def shrink(self, plan):
        st = plan['steps']
        for k in range(len(st)):
            yield dict(plan, steps=st[:k] + st[k + 1:])
        for k, s in enumerate(st):
            for key in ('fault', 'interrupt'):
                if key in s:
                    yield dict(plan, steps=st[:k] + [{a: b for a, b in s.items() if a != key}] + st[k + 1:])
            if s.get('kw'):
                yield dict(plan, steps=st[:k] + [dict(s, kw={})] + st[k + 1:])


def first(a, b):
    for x, y in zip(a, b):
        if x != y:
            return '%s / %s' % (x[:300], y[:300])
    if len(a) != len(b):
        return '%d / %d items (%s)' % (len(a), len(b), (a + b)[min(len(a), len(b))][:200])
    return None
