"""Figures as data: replaces the renderer by a digest of what was drawn.

``FigureCanvasBase.print_figure`` (below ``Figure.savefig`` and
``plt.savefig``) writes a textual picture of the figure through ``open``, i.e.
through the simulated disk, in several writes.  QMix and matplotlib's figure
and artist code run for real; only rasterisation is replaced.
"""
import hashlib
import os

import numpy as np

MODE = 'stub'          # or 'real': real rasteriser at low resolution
_real_print = None


def _arr(x):
    try:
        a = np.ma.filled(np.ma.asarray(x, dtype=complex), np.nan)
    except (TypeError, ValueError):
        return repr(x)
    with np.errstate(all='ignore'):
        s = ['%.7g,%.7g' % (v.real + 0.0, v.imag + 0.0) for v in a.ravel()]
    return '%s:%s' % (a.shape, hashlib.sha256(' '.join(s).encode()).hexdigest()[:16]) if a.size > 6 else ' '.join(s)


def describe(fig):
    """list of lines describing every artist of the figure"""
    out = ['size %s' % _arr(fig.get_size_inches())]
    for k, ax in enumerate(fig.axes):
        out.append('axes %d %s pos=%s xlim=%s ylim=%s xscale=%s yscale=%s' % (
            k, type(ax).__name__, _arr(ax.get_position().bounds), _arr(ax.get_xlim()), _arr(ax.get_ylim()), ax.get_xscale(), ax.get_yscale()))
        out.append('labels %r %r %r' % (ax.get_xlabel(), ax.get_ylabel(), ax.get_title()))
        for ln in ax.lines:
            out.append('line %r x=%s y=%s c=%s ls=%s m=%s' % (ln.get_label(), _arr(ln.get_xdata()), _arr(ln.get_ydata()), ln.get_color(),
                                                            ln.get_linestyle(), ln.get_marker()))
        for c in ax.collections:
            a = c.get_array()
            out.append('coll %s %s' % (type(c).__name__, None if a is None else _arr(a)))
        for t in ax.texts:
            out.append('text %r at %s' % (t.get_text(), _arr(t.get_position())))
        lg = ax.get_legend()
        if lg is not None:
            out.append('legend %r %r' % (lg.get_title().get_text(), [t.get_text() for t in lg.get_texts()]))
    return out


def state(fig):
    """everything about an open figure a later draw or save would show"""
    sp = fig.subplotpars
    return describe(fig) + ['sp %s' % _arr([sp.left, sp.right, sp.top, sp.bottom, sp.wspace, sp.hspace])]


def picture(fig):
    return ('\n'.join(state(fig)) + '\n').encode()


def print_figure(self, filename, dpi=None, *a, **k):
    if MODE == 'real':
        return _real_print(self, filename, 15, *a, **k)
    body = ('\x89SIMPNG dpi=%s\n' % dpi).encode('latin-1')
    body += picture(self.figure) + b'IEND\n'
    if hasattr(filename, 'write'):
        filename.write(body)
        return
    filename = os.fspath(filename)
    fmt = k.get('format')
    if not os.path.splitext(filename)[1]:
        filename = filename.rstrip('.') + '.' + (fmt or 'png')
    with open(filename, 'wb') as f:
        for i in range(0, len(body), 700):
            f.write(body[i:i + 700])


def warm():
    """fill matplotlib's own caches (fonts, mathtext) once; every run is a fork of this process"""
    import matplotlib.pyplot as plt
    old = matplotlib_state()
    for scale in ('linear', 'log'):
        fig, ax = plt.subplots()
        ax2 = ax.twinx()
        ax.plot([1, 2, 3], [1, 10, 1000], label=r'$T_N$ ($\Omega$)')
        ax2.plot([1, 2, 3], [3, 2, 1], '--o', label=r'$\mu$A $10^{-3}$')
        ax.set_yscale(scale)
        ax.set_xlabel(r'Voltage (mV) $\left(\Omega\right)$')
        ax.legend(title='LO')
        ax2.legend()
        fig.tight_layout()
        fig.draw_without_rendering()
        plt.close(fig)
    assert matplotlib_state() == old


def matplotlib_state():
    import matplotlib
    from matplotlib import _pylab_helpers
    return list(_pylab_helpers.Gcf.figs), dict.copy(matplotlib.rcParams)


def install():
    global _real_print
    from matplotlib import backend_bases
    if _real_print is None:
        _real_print = backend_bases.FigureCanvasBase.print_figure
        backend_bases.FigureCanvasBase.print_figure = print_figure


# ------------------------------------------------- per-process pyplot state
def fresh_process():
    from collections import OrderedDict
    from matplotlib import _pylab_helpers
    _pylab_helpers.Gcf.figs = OrderedDict()


def save_process():
    import matplotlib
    from matplotlib import _pylab_helpers
    return _pylab_helpers.Gcf.figs, dict.copy(matplotlib.rcParams), os.getcwd(), np.geterr()


def restore_process(st):
    import matplotlib
    from matplotlib import _pylab_helpers
    _pylab_helpers.Gcf.figs = st[0]
    if dict.copy(matplotlib.rcParams) != st[1]:
        dict.update(matplotlib.rcParams, st[1])
    if os.getcwd() != st[2]:
        os.chdir(st[2])
    np.seterr(**st[3])


def reset_numpy_openers():
    """np.savetxt/genfromtxt cache io.open on first use; make them look again"""
    try:
        from numpy.lib import _datasource
        _datasource._file_openers._loaded = False
        _datasource._file_openers._file_openers = {None: __import__('io').open}
    except Exception:
        pass
