"""Drawings of maps: which bins are shown, where, and with which values."""
import os
os.environ['MPLBACKEND'] = 'Agg'
import numpy as np
import matplotlib
matplotlib.use('Agg')
import matplotlib.pyplot as plt
import matplotlib.axes
import matplotlib.figure
from matplotlib.quiver import Quiver
from types import SimpleNamespace
from matplotlib.colors import to_rgba
from matplotlib.collections import LineCollection, QuadMesh
from matplotlib.contour import ContourSet
from vlib import *
from strata.view_flowmap import view_flowfields, view_flowmap_2d
from droplets.data_utils import get_lim_indices
from droplets.flowfield import draw_flowfield
from droplets.flow import FlowData

CS = 16000
LABELS = ['M', 'N', 'T', 'U', 'V']
figs = []           # what was in every figure when it was saved
streams = []
real_stream = [False]
_save = matplotlib.figure.Figure.savefig
_stream = matplotlib.axes.Axes.streamplot


def savefig(self, *a, **kw):
    figs.append((self.axes[0] if self.axes else None, list(streams)))
    streams[:] = []
    figs[-1] = record(*figs[-1])
    return _save(self, *a, **kw)


def streamplot(self, x, y, u, v, *a, **kw):
    streams.append((x, y, u, v, kw.get('color'), kw.get('linewidth')))
    if real_stream[0] and len(x) > 1 and len(y) > 1:
        return _stream(self, x, y, u, v, *a, **kw)
    lines = LineCollection([])
    lines.set_array(np.zeros(1))
    self.add_collection(lines)
    return SimpleNamespace(lines=lines)


def record(ax, ss):
    r = dict(quiver=[], height=[], stream=ss, contour=[])
    if ax is None: return r
    for c in ax.get_children():
        if isinstance(c, Quiver): r['quiver'].append(c)
        elif isinstance(c, QuadMesh): r['height'].append(c)
        elif isinstance(c, ContourSet): r['contour'].append(c)
    # their contents have to be copied before the figure is cleared
    r['quiver'] = [(np.array(q.X), np.array(q.Y), np.ma.filled(np.ma.asarray(q.U, float), np.nan), np.ma.filled(np.ma.asarray(q.V, float), np.nan),
                    np.ma.filled(np.ma.asarray(q.get_array(), float), np.nan), q.get_clim()) for q in r['quiver']]
    r['height'] = [(np.ma.filled(np.ma.asarray(h.get_array(), float), np.nan), h.get_clim()) for h in r['height']]
    r['contour'] = [(list(c.levels), [[np.array(s) for s in level] for level in c.allsegs], np.array(c.get_facecolor() if c.filled else c.get_edgecolor())) for c in r['contour']]
    return r


matplotlib.figure.Figure.savefig = savefig
matplotlib.axes.Axes.streamplot = streamplot


COLOURS = ['red', 'blue', '#00ff40', 'black', 'orange']


def lim(v, scale=CS):
    return [0, 0] if v is None else [1, enc(v, scale)]


def factor(colour):
    return {'visc': 48 / 8.77e-4, 'evaporation': 4, 'grad_rho_x': 4, 'grad_rho_y': 4}.get(colour, 1000)


def opt(v):
    return 'None' if v is None else v


def figure_of(kind, r, g, colour, filled):
    """One recorded figure, encoded"""
    f = factor(colour)
    out = dict(out=[], x=[], y=[], levels=[], lines=[], crange=[], colours=[])
    if kind == 'quiver' and len(r['quiver']) == 1:
        q = [np.ravel(np.broadcast_to(a, np.shape(r['quiver'][0][0]))) for a in r['quiver'][0][:5]]
        out['crange'] = [enc(v, f) for v in r['quiver'][0][5]]
        out['out'] = [[enc(x, CS), enc(y, CS), enc(u, 1000), enc(v, 1000), enc(c, f)] for x, y, u, v, c in zip(*q)]
    elif kind == 'height' and len(r['height']) == 1:
        h, lims = r['height'][0]
        out['crange'] = [enc(v, f) for v in lims]
        if h.size == g.nx * g.ny:
            out['out'] = [enc(v, f) for v in np.reshape(h, (g.ny, g.nx)).T.ravel()]
    elif kind == 'stream' and len(r['stream']) == 1:
        x, y, u, v, c, w = r['stream'][0]
        out['x'], out['y'] = encs(x, CS), encs(y, CS)
        cells = [np.ma.filled(np.ma.asarray(a, float), np.nan) for a in (u, v, c, w)]
        if all(a.shape == (len(y), len(x)) for a in cells):
            out['out'] = [[enc(a, 1000), enc(b, 1000), enc(cc, f), enc(ww, 1000)] for a, b, cc, ww in zip(*[a.ravel() for a in cells])]
    elif kind == 'contour' and len(r['contour']) == 1:
        levels, segs, colours = r['contour'][0]
        out['colours'] = [next((q + 1 for q, n in enumerate(COLOURS) if np.allclose(to_rgba(n), c)), 0) for c in colours]
        out['levels'] = encs(levels, 1000)
        if not filled:
            out['lines'] = [[[enc(p[0], CS), enc(p[1], CS)] for s in level for p in np.reshape(s, (-1, 2))] for level in segs]
    return out


def setup(d, nmin, nmax, small, fine=False):
    rng = d.rng
    dx, dy = rng.choice([.25, .5, 1., 2.]), rng.choice([.25, .5, 1., 2.])
    if fine and rng.random() < .15: dx, dy = rng.choice([.004, .008]), rng.choice([.004, .008])
    g = Grid(rng.randint(nmin, nmax), rng.randint(nmin, nmax), dx, dy, dx * (rng.randint(-4, 4) + rng.choice([0, .5])), dy * (rng.randint(-4, 4) + rng.choice([0, .5])))
    nf = rng.choice([1, 1, 2, 3])
    # several files in the same format
    fmt = rng.choice(['gmx', 'gmx', 'simple', 'plain']) if g.nx > 1 and g.ny > 1 else 'gmx'
    dirn = d.tmp()
    paths, frames = [], []
    zero = rng.choice([0, .3, .6])
    for q in range(nf):
        dat = rdata(rng, g, zero, 3 if small else 9, 3 if small else 9)
        for l in ('U', 'V'):                       # flow along one axis only is nothing special
            for k in range(g.nx * g.ny):
                if rng.random() < .2: dat[l][k] = 0
        p = os.path.join(dirn, rng.choice(['f', 'x y', 'map.']) + '%d.dat' % q)
        write_map(p, g, dat, fmt)
        paths.append(p)
        frames.append(data_rows(dat))
    return g, dirn, paths, frames


def window(rng, g):
    off = [0, 0, .25, -.25] if g.dx > .1 else [.25, -.25]      # fine coordinates are not exact
    def one(o, s, n):
        lo = hi = None
        if rng.random() < .5: lo = o + s * (rng.randint(-1, n - 1) + rng.choice(off))
        if rng.random() < .5: hi = o + s * (rng.randint(0, n) + rng.choice(off))
        if lo is not None and hi is not None and hi <= lo: hi = None
        return lo, hi
    if rng.random() < .4: return (None, None), (None, None)
    w = [one(g.x0, g.dx, g.nx), one(g.y0, g.dy, g.ny)]
    for q in range(2):
        if g.dx > .1 and rng.random() < .25: w[q] = rng.choice([(0., None), (None, 0.), (0., w[q][1] if w[q][1] is not None and w[q][1] > 0 else None)])
    return tuple(w)


def colour_limits(rng, colour, whole):
    """Limits of the colours; one of them only if it is sure that some value is on its other side"""
    if whole and colour in ('M', 'N', 'T', 'flow', None) and rng.random() < .7: return rng.choice([(0, None), (None, 40), (-30, None)])
    return rng.choice([(0, 5), (-20, 3), (-5, 0), (0, 1)])


def extra_options(rng, cli_):
    """Decorations, which must not change what is shown"""
    o = {}
    if rng.random() < .15: o['title'] = 'a title'
    if rng.random() < .15: o['colormap'] = 'plasma'
    if rng.random() < .15: o['colorbar'] = True
    if rng.random() < .1: o['transparent'] = True
    if rng.random() < .1: o['noaxis'] = True
    if cli_ and 'noaxis' in o: del o['noaxis']
    return o


def finish(d, kind, g, frames, via, exc, target, colour, filled=0, **ev):
    enc_figs = []
    for r in figs:
        try:
            enc_figs.append(figure_of(kind, r, g, colour, filled))
        except Exception:
            enc_figs.append(dict(out=[], x=[], y=[], levels=[], lines=[], crange=[], colours=[]))
    base = {.25: 1, .5: 2, 1.: 4, 2.: 8, .004: 1, .008: 2}
    a, b = base[g.dx], base[g.dy]
    while a % 2 == 0 and b % 2 == 0: a, b = a // 2, b // 2
    e = dict(k=kind, via=via, g=grid_record(g, CS), frames=frames, num=len(frames), figs=enc_figs, exc=exc,
             saved=int(os.path.exists(target) and os.path.getsize(target) > 0),
             colour=opt(colour), kx=int(2 / g.dx), ky=int(2 / g.dy), ex=a, ey=b, swap=0, cl=0, cut=[0, 0], lim=[[0, 0]] * 4,
             clim=[[0, 0]] * 2, vlim=[[0, 0]] * 2, explicit=0, levels=[], filled=filled, cycle=[])
    e.update(ev)
    d.emit(**e)


def drawing(d, streamlines):
    rng = d.rng
    via = rng.choice(['lib', 'cli'])
    colour = rng.choice(['T', 'M', 'N', 'U', 'V', None, 'flow', 'visc', 'radial', 'evaporation'])
    if streamlines and rng.random() < .5: colour = rng.choice(['T', 'M', None])
    small = colour in ('visc', 'radial')
    g, dirn, paths, frames = setup(d, {'visc': 3, 'evaporation': 2}.get(colour, 2 if streamlines else 1), 5, small, fine=colour not in ('visc', 'evaporation'))
    xlim, ylim = window(rng, g)
    vmax = 3 if small else 9
    cutoff = rng.choice([None, None, 0, 1, vmax / 2., rng.randint(0, vmax), rng.randint(0, 2 * vmax) / 2.])
    target = os.path.join(dirn, 'fig.' + rng.choice(['png', 'png', 'pdf', 'svg']))
    figs[:] = []; streams[:] = []
    real_stream[0] = rng.random() < .3
    ev = {}
    vlim = (None, None)
    whole = lambda: cutoff is None and xlim == ylim == (None, None) and all(any(r[3] or r[4] for r in f) for f in frames)
    if colour == 'radial' and any(sum(r[0] for r in f) == 0 for f in frames): colour = 'T'
    o = extra_options(rng, via == 'cli')
    if via == 'lib':
        kw = dict(save_fig=target, show=False, **o)
        if xlim != (None, None) or rng.random() < .3: kw['xlim'] = xlim
        if ylim != (None, None) or rng.random() < .3: kw['ylim'] = ylim
        if colour is not None or rng.random() < .5: kw['colour'] = colour
        if cutoff is not None or rng.random() < .3: kw['cutoff'] = cutoff
        ev['cl'] = 1
        if rng.random() < .3:
            kw['cutoff_label'] = rng.choice(LABELS)
            ev['cl'] = LABELS.index(kw['cutoff_label']) + 1
            if cutoff is not None and rng.random() < .4: kw['cutoff'] = cutoff = rng.choice([0, 0, -1, -2.5])
        if streamlines: kw['streamlines'] = True
        if rng.random() < .2:
            kw['labels'] = ('V', 'U')
            ev['swap'] = 1
        if rng.random() < .4:
            vlim = colour_limits(rng, colour, whole())
            kw['vlim'] = vlim
        if rng.random() < .2 and not streamlines: kw['pivot'] = rng.choice(['tail', 'middle', 'tip'])
        _, exc = call(view_flowfields, *paths, **kw)
    else:
        a = ['view', 'flow', '-o', target, '--noshow']
        if colour != 'T' or rng.random() < .5: a += ['-cl', opt(colour)]
        if cutoff is not None: a += ['-co', cutoff]
        for n, l in (('--xlim', xlim), ('--ylim', ylim)):
            if l != (None, None) or rng.random() < .3: a += [n, opt(l[0]), opt(l[1])]
        if streamlines: a += ['--streamlines']
        if 'title' in o: a += ['--title', 'x']
        if 'colorbar' in o: a += ['--colourbar']
        if 'colormap' in o: a += ['-cmap', o['colormap']]
        if 'transparent' in o: a += ['--transparent']
        if rng.random() < .1: a += ['--scale', 2., '--width', .002, '--pivot', 'tip']
        if rng.random() < .1: a += ['--dims', 640, 480]
        if rng.random() < .3:
            vlim = colour_limits(rng, colour, whole())
            a += ['--vlim', opt(vlim[0]), opt(vlim[1])]
        ev['cl'] = 1
        _, exc = cli(*a, '--', *paths)
    plt.close('all')
    ev.update(vlim=[lim(v, factor(colour)) for v in vlim], cut=lim(cutoff, 2), lim=[lim(xlim[0]), lim(xlim[1]), lim(ylim[0]), lim(ylim[1])])
    finish(d, 'stream' if streamlines else 'quiver', g, frames, via, exc, target, colour if not (streamlines and colour not in LABELS and colour not in ('flow', 'visc', 'radial', 'evaporation')) else None, **ev)
    d.drop(dirn)


def heights(d):
    rng = d.rng
    via = rng.choice(['lib', 'cli'])
    colour = rng.choice(['M', 'N', 'T', 'U', 'V', 'flow', 'visc', 'evaporation'] + (['grad_rho_x', 'grad_rho_y'] if via == 'lib' else []))
    small = colour == 'visc'
    g, dirn, paths, frames = setup(d, {'visc': 3, 'evaporation': 2, 'grad_rho_x': 2, 'grad_rho_y': 2}.get(colour, 1), 5, small, fine=colour in LABELS + ['flow'])
    vmax = 3 if small else 9
    clim = [None, None]
    if colour not in ('visc', 'grad_rho_x', 'grad_rho_y') and rng.random() < .6:
        if rng.random() < .6: clim[0] = rng.choice([0, rng.randint(-2, vmax), rng.randint(0, 2 * vmax) / 2.])
        if rng.random() < .6: clim[1] = rng.choice([0, rng.randint(0, vmax), rng.randint(0, 2 * vmax) / 2.])
    cutoff = rng.choice([None, None, 0, 1, vmax / 2., rng.randint(0, vmax), rng.randint(0, 2 * vmax) / 2.])
    label = 'visc_diss' if colour == 'visc' else colour
    target = os.path.join(dirn, 'fig.png')
    figs[:] = []; streams[:] = []
    vlim = (None, None) if rng.random() < .4 else colour_limits(rng, colour, cutoff is None and clim == [None, None])
    ev = {}
    o = extra_options(rng, via == 'cli')
    if via == 'lib':
        kw = dict(type='height', save_fig=target, show=False, clim=tuple(clim), vlim=vlim, **o)
        if label != 'M' or rng.random() < .5: kw['label'] = label
        if cutoff is not None or rng.random() < .3: kw['cutoff'] = cutoff
        ev['cl'] = 1
        if rng.random() < .4:
            cl = rng.choice(LABELS + [None])
            kw['cutoff_label'] = cl
            ev['cl'] = 0 if cl is None else LABELS.index(cl) + 1
            if cutoff is not None and cl in ('U', 'V') and rng.random() < .5: kw['cutoff'] = cutoff = rng.choice([0, 0, -1, -2.5])
        _, exc = call(view_flowmap_2d, *paths, **kw)
    else:
        a = ['view', 'height', '-o', target, '--noshow']
        if label != 'M' or rng.random() < .5: a += ['-l', label]
        if clim != [None, None] or rng.random() < .3: a += ['--clim', opt(clim[0]), opt(clim[1])]
        if vlim != (None, None): a += ['--vlim', opt(vlim[0]), opt(vlim[1])]
        if cutoff is not None: a += ['-co', cutoff]
        ev['cl'] = 0
        if rng.random() < .6:
            cl = rng.choice(LABELS)
            a += ['-cl', cl]
            ev['cl'] = LABELS.index(cl) + 1
        if 'title' in o: a += ['--title', 'x']
        if 'colorbar' in o: a += ['--nocolourbar']
        if 'colormap' in o: a += ['-cmap', o['colormap']]
        if rng.random() < .1: a += ['--nodrawaxes']
        _, exc = cli(*a, '--', *paths)
    plt.close('all')
    ev.update(vlim=[lim(v, factor(colour)) for v in vlim], cut=lim(cutoff, 2), clim=[lim(clim[0], 2), lim(clim[1], 2)])
    finish(d, 'height', g, frames, via, exc, target, colour, **ev)
    d.drop(dirn)


def contours(d):
    rng = d.rng
    via = rng.choice(['lib', 'cli'])
    colour = rng.choice(LABELS + ['M', 'flow'])
    g, dirn, paths, frames = setup(d, 2, 5, False, fine=True)
    target = os.path.join(dirn, 'fig.png')
    levels = None
    if rng.random() < .6: levels = sorted(rng.sample([.5, 1.5, 2.25, 3.5, 4.75, 6.5, 8.5, -3.5, -.5], rng.randint(1, 4)))
    vlim = rng.choice([(None, None), (None, None), (2, 6), (None, 5), (1, None), (0, 5), (None, 0), (0, None)])
    num = rng.choice([None, None, 3, 6])
    filled = int(rng.random() < .2)
    if filled and levels is not None and len(levels) < 2: levels = [.5, 1.5]
    figs[:] = []; streams[:] = []
    o = extra_options(rng, via == 'cli')
    if not filled: o.pop('colorbar', 0)
    cycle = rng.sample(range(5), rng.randint(1, 5)) if rng.random() < .35 else []
    names = [COLOURS[q] for q in cycle]
    if via == 'lib':
        kw = dict(type='contour', save_fig=target, show=False, vlim=vlim, **o)
        if colour != 'M' or rng.random() < .5: kw['label'] = colour
        if levels is not None: kw['contour_levels'] = levels
        if num is not None: kw['num_contours'] = num
        if filled: kw['filled'] = True
        if cycle: kw['contour_colours'] = names
        _, exc = call(view_flowmap_2d, *paths, **kw)
    else:
        a = ['view', 'contour', '-o', target, '--noshow']
        if colour != 'M' or rng.random() < .5: a += ['-l', colour]
        if levels is not None: a += ['-lv', ' '.join(str(l) for l in levels)]
        if num is not None: a += ['-n', num]
        if vlim != (None, None): a += ['--vlim', opt(vlim[0]), opt(vlim[1])]
        if filled: a += ['--filled']
        if cycle: a += ['-c', ' '.join(names)]
        if 'colormap' in o: a += ['-cmap', o['colormap']]
        _, exc = cli(*a, '--', *paths)
    plt.close('all')
    finish(d, 'contour', g, frames, via, exc, target, colour, filled, explicit=int(levels is not None), levels=encs(levels or [], 1000), cycle=[q + 1 for q in cycle],
           clim=[lim(vlim[0], 2), lim(vlim[1], 2)])
    d.drop(dirn)


def selection(d):
    rng = d.rng
    n = rng.randint(1, 9)
    labels = rng.sample(['X', 'Y', 'M', 'T', 'a'], rng.randint(1, 5))
    vals = [[rng.randint(-3, 6) for _ in labels] for _ in range(n)]
    dt = [(l, rng.choice([float, int, 'f4'])) for l in labels]
    a = np.array([tuple(v) for v in vals], dtype=dt)
    limits, want = {}, []
    for l in rng.sample(labels, rng.randint(0, len(labels))):
        lo = None if rng.random() < .35 else rng.randint(-4, 6) + rng.choice([0, 0, .5])
        hi = None if rng.random() < .35 else rng.randint(-4, 7) + rng.choice([0, 0, .5])
        limits[l] = (lo, hi)
        want.append([labels.index(l) + 1, lim(lo, 2), lim(hi, 2)])
    res, exc = call(get_lim_indices, a, limits)
    try:
        out = [int(v) + 1 for v in np.ravel(np.asarray(res))]
    except Exception:
        out = [-1]
    values = [[v[q] for v in vals] for q in range(len(labels))]
    d.emit(k='inds', n=n, values=values, limits=want, exc=exc, out=out)


def draw(d):
    rng = d.rng
    n = rng.randint(1, 6)
    names = ['X', 'Y', 'U', 'V'] if rng.random() < .5 else ['a', 'b', 'c', 'e']
    vals = [[rng.randint(-9, 9) for _ in names] for _ in range(n)]
    order = list(range(4))
    rng.shuffle(order)
    a = np.array([tuple(v[q] for q in order) for v in vals], dtype=[(names[q], float) for q in order])
    fig, exc = call(draw_flowfield, a, **({} if names[0] == 'X' and rng.random() < .5 else dict(fields=names)))
    out = []
    try:
        out = [[enc(w) for w in v] for v in zip(np.ravel(fig.X), np.ravel(fig.Y), np.ravel(fig.U), np.ravel(fig.V))]
    except Exception:
        pass
    plt.close('all')
    d.emit(k='draw', values=vals, exc=exc, out=out)


def main(d):
    for i in range(d.a.count):
        r = d.rng.random()
        if r < .35: drawing(d, False)
        elif r < .6: heights(d)
        elif r < .75: drawing(d, True)
        elif r < .9: contours(d)
        elif r < .96: [selection(d) for _ in range(10)]
        else: [draw(d) for _ in range(3)]


run('d_view', main)
