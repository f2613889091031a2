"""What is in a figure when it is saved and shown, and what is left of it."""
import os, re
os.environ['MPLBACKEND'] = 'Agg'
import numpy as np
import matplotlib
matplotlib.use('Agg')
import matplotlib.pyplot as plt
import matplotlib.figure
from matplotlib.quiver import Quiver
from matplotlib.collections import LineCollection, QuadMesh
from matplotlib.contour import ContourSet
from PIL import Image
from vlib import *
from strata.utils import decorate_graph
from strata.view_flowmap import view_flowfields, view_flowmap_2d
from strata.spreading.view import view_spreading
from strata.spreading.fit import fit_spreading_data
from strata.interface.view import view_interfaces
from strata.interface.angle import interface_contact_angle
from strata.interface.sample import sample_interfaces

MAPS = ['viridis', 'plasma', 'gray', 'jet', 'Blues', 'coolwarm']
pics = []
opened = [0]
_save = matplotlib.figure.Figure.savefig


def picture(fig, when):
    ax = fig.axes[0] if fig.axes else None
    r = dict(when=when, title='?', xlabel='?', ylabel='?', xlim=[BAD, BAD], ylim=[BAD, BAD], log=[], off=-1, aspect='', lines=[], maps=[], bars=[], legend=[])
    if ax is None: return r
    r.update(title=ax.get_title(), xlabel=ax.get_xlabel(), ylabel=ax.get_ylabel(), xlim=encs(ax.get_xlim(), 1000), ylim=encs(ax.get_ylim(), 1000),
             log=[int(ax.get_xscale() == 'log'), int(ax.get_yscale() == 'log')], off=int(not ax.axison),
             aspect='auto' if ax.get_aspect() == 'auto' else 'equal' if ax.get_aspect() == 1 else '?')
    for l in ax.get_lines():
        label = str(l.get_label())
        m = re.fullmatch(r'a=(-?[\d.]+), k=(-?[\d.]+)', label)
        r['lines'].append(dict(label='' if label.startswith('_') else label, nums=[enc(w, 1000) for w in m.groups()] if m else [],
                               pts=[[enc(x, 1000), enc(y, 1000)] for x, y in zip(l.get_xdata(orig=True), l.get_ydata(orig=True))]))
    for c in ax.get_children():
        if isinstance(c, (Quiver, QuadMesh, ContourSet, LineCollection)):
            c.autoscale_None()
            r['maps'].append(dict(cmap=c.get_cmap().name, lo=enc(c.norm.vmin, 1000), hi=enc(c.norm.vmax, 1000)))
    if ax.get_legend() is not None:
        r['legend'] = [t.get_text() for t in ax.get_legend().get_texts()]
    for b in fig.axes[1:]:
        bar = getattr(b, '_colorbar', None)
        if bar is None: continue
        names = [t.get_text() for t in b.get_yticklabels()]
        r['bars'].append(dict(label=b.get_ylabel(), ticks=encs(bar.get_ticks(), 1000), names=names, cmap=bar.cmap.name))
    return r


def savefig(self, *a, **kw):
    pics.append(picture(self, 'save'))
    return _save(self, *a, **kw)


matplotlib.figure.Figure.savefig = savefig
plt.show = lambda *a, **kw: pics.append(picture(plt.gcf(), 'show'))


def image(path):
    if not os.path.exists(path): return []
    try:
        with Image.open(path) as im:
            w, h = im.size
            corner = im.convert('RGBA').getpixel((0, 0))
        return [w, h, int(corner[3] == 0)]
    except Exception:
        return [0, 0, 0]


PLAIN = dict(tool='draw', title='', xlabel='', ylabel='', xlim=[[], []], ylim=[[], []], axis='', log=-1, legend=-1, off=-1, bar=-1, blabel='',
             bticks=[], bnames=[], cmap='', save=0, show=-1, clf=-1, dpi=0, transparent=-1, map=0, lines=[], vlim=[[], []], dims=[], fits=[])


def keywords(o, rng):
    kw = {}
    for a, b in (('title', 'title'), ('xlabel', 'xlabel'), ('ylabel', 'ylabel'), ('axis', 'axis'), ('cmap', 'colormap'), ('blabel', 'cbarlabel')):
        if o[a] != '': kw[b] = o[a]
    for a, b in (('log', 'loglog'), ('legend', 'legend'), ('off', 'noaxis'), ('bar', 'colorbar'), ('show', 'show'), ('clf', 'clf'), ('transparent', 'transparent')):
        if o[a] != -1: kw[b] = bool(o[a])
    for a in ('xlim', 'ylim', 'vlim'):
        l = [None if v == [] else v[0] / 1000. for v in o[a]]
        if l != [None, None] or (a != 'vlim' and rng.random() < .3): kw[a] = tuple(l)
    if o['bticks']: kw['cbarticks'] = [v / 1000. for v in o['bticks']]
    if o['bnames']: kw['cbarticklabels'] = list(o['bnames'])
    if o['dpi']: kw['dpi'] = o['dpi']
    if o['dims']: kw['dims'] = tuple(o['dims'])
    return kw


@decorate_graph
def draw(lines, values, **kw):
    assert not kw
    if values is not None:
        plt.pcolormesh(*values)
    for l in lines:
        plt.plot(*l['xy'], **(dict(label=l['label']) if l['label'] else {}))


def left():
    n = len(plt.get_fignums())
    if n == 0: return [0, 0]
    axes = plt.gcf().axes
    return [len(axes), len(axes[0].get_lines()) if axes else 0]


def history(d, beh):
    """Calls of one decorated function after each other"""
    rng = d.rng
    plt.close('all')
    plt.rcdefaults()
    dirn = d.tmp()
    steps = []
    for o in beh['calls']:
        o = dict(PLAIN, **o)
        o['lines'] = [dict(label=l['label'], pts=l['pts']) for l in o['lines']]
        path = os.path.join(dirn, '%d.png' % o['save'])
        for p in os.listdir(dirn): os.remove(os.path.join(dirn, p))
        kw = keywords(o, rng)
        if o['save']: kw['save_fig'] = path
        elif rng.random() < .2: kw['save_fig'] = None
        lines = [dict(label=l['label'], xy=[[p[c] / 1000. for p in l['pts']] for c in (0, 1)]) for l in o['lines']]
        values = ([1, 4, 8], [1, 3, 9], np.array([[1., 2.], [4., 6.]])) if o['map'] else None
        pics[:] = []
        before = len(plt.get_fignums())
        signal.signal(signal.SIGALRM, lambda *a: (_ for _ in ()).throw(Timeout()))
        with silence() as out:
            try:
                signal.alarm(60)
                exc = ''
                draw(lines, values, **kw)
            except BaseException as e:
                exc = type(e).__name__
            finally:
                signal.alarm(0)
        f = image(path) if o['save'] else ([1] if os.listdir(dirn) else [])
        steps.append(dict(o=o, pics=list(pics), file=f, exc=exc, left=left(), open=[before, len(plt.get_fignums())], said=int(out.getvalue().strip() != '')))
    plt.close('all')
    d.emit(k='history', steps=steps)
    d.drop(dirn)


def some(rng, p, value):
    return value if rng.random() < p else None


def options(rng, o, tool, x, y):
    """Options that every drawing has; x, y are ranges of sensible limits"""
    o['title'] = rng.choice(['', '', 'Title', 'A $t$'])
    o['xlabel'], o['ylabel'] = rng.choice(['', 'x (nm)']), rng.choice(['', 'y'])
    for a, (lo, hi) in (('xlim', x), ('ylim', y)):
        mid = (lo + hi) / 2
        if rng.random() < .3: o[a] = [rng.choice([[], [enc(lo - (hi - lo) / 4, 1)], [enc(lo + (hi - lo) / 8, 1)]]),
                                      rng.choice([[], [enc(hi + (hi - lo) / 4, 1)], [enc(hi - (hi - lo) / 8, 1)]])]
    if rng.random() < .25: o['axis'] = rng.choice(['tight', 'auto', 'scaled'])
    if rng.random() < .3: o['off'] = rng.choice([0, 1])
    if rng.random() < .3: o['legend'] = rng.choice([0, 1])
    if rng.random() < .3: o['transparent'] = rng.choice([0, 1])
    o['dpi'] = rng.choice([0, 30, 50, 72])
    o['show'] = rng.choice([-1, 0, 1])
    if rng.random() < .7: o['save'] = 1
    if rng.random() < .4: o['cmap'] = rng.choice(MAPS)


def steps_of(o, n, exc, paths, lines=None):
    """One step for each of the n figures of a call"""
    per = []
    k = sum(1 for w in ('save', 'show') if (w == 'save' and o['save']) or (w == 'show' and o['show'] != 0))
    for q in range(n):
        mine = pics[q * k:(q + 1) * k] if q < n - 1 else pics[q * k:]
        oo = dict(o)
        if lines is not None: oo['lines'] = lines[q]
        per.append(dict(o=oo, pics=mine, file=image(paths[q]) if o['save'] else [], exc=exc, left=left() if q == n - 1 else [0, 0], open=[opened[0], len(plt.get_fignums())], said=0))
    return per


def fields(d, tool):
    rng = d.rng
    dirn = d.tmp()
    g = Grid(rng.randint(3, 7), rng.randint(3, 7), rng.choice([.5, 1.]), rng.choice([.5, 1.]), rng.randint(-2, 4), rng.randint(0, 3))
    n = rng.choice([1, 1, 2])
    paths = []
    for q in range(n):
        dat = rdata(rng, g, 0, 9, 9)
        dat['M'][0], dat['M'][1] = 1, 9
        dat['U'][0] = dat['U'][1] = 3
        p = os.path.join(dirn, 'm%d.dat' % q)
        write_map(p, g, dat, rng.choice(['gmx', 'simple']) if n == 1 else 'gmx')
        paths.append(p)
    o = dict(PLAIN, tool=tool, map=1)
    options(rng, o, tool, (1000 * g.x0, 1000 * (g.x0 + g.dx * (g.nx - 1))), (1000 * g.y0, 1000 * (g.y0 + g.dy * (g.ny - 1))))
    o['legend'] = -1
    if tool == 'stream':             # stream lines need two rows and columns
        for a, z, dz, m in (('xlim', g.x0, g.dx, g.nx), ('ylim', g.y0, g.dy, g.ny)):
            if sum(all((v == []) or (q == 0) == (1000 * (z + dz * k) >= v[0]) for q, v in enumerate(o[a])) for k in range(m)) < 2: o[a] = [[], []]
    if rng.random() < .5:
        o['bar'] = rng.choice([0, 1])
        if o['bar'] == 1:
            o['blabel'] = rng.choice(['', 'Mass'])
            if tool in ('quiver', 'height') and rng.random() < .5:
                o['bticks'] = [2000, 5000]
                if rng.random() < .5: o['bnames'] = ['few', 'many']
    if tool in ('quiver', 'height') and rng.random() < .4: o['vlim'] = [rng.choice([[], [500], [2000]]), rng.choice([[], [6000], [11500]])]
    if tool != 'stream' and rng.random() < .4: o['dims'] = [rng.choice([200, 313, 400]), rng.choice([200, 311])]
    kw = keywords(o, rng)
    fig = os.path.join(dirn, 'fig.png')
    if o['save']: kw['save_fig'] = fig
    # several files are drawn to the same image
    pics[:] = []
    opened[:] = [len(plt.get_fignums())]
    if tool in ('quiver', 'stream'):
        _, exc = call(view_flowfields, *paths, colour='M', streamlines=tool == 'stream', **kw)
    else:
        kw.setdefault('vlim', (None, None))
        if tool == 'height': kw['clim'] = (None, None)
        _, exc = call(view_flowmap_2d, *paths, type=tool, label='M', **kw)
    return steps_of(o, n, exc, [fig] * n), dirn


def curves(d, tool):
    rng = d.rng
    dirn = d.tmp()
    paths, lines, fits = [], [], []
    for q in range(rng.choice([1, 1, 2])):
        p = os.path.join(dirn, rng.choice(['r%d', 'a=1.%d', 'k=0 %d.xvg', '0123456789.%d']) % q)
        n = rng.randint(3, 6)
        t = sorted(rng.sample(range(1, 40), n))
        v = [rng.randint(1, 80) for _ in t]
        with open(p, 'w') as fp:
            for a, b in zip(t, v): fp.write('%.3f %.3f\n' % (a / 4, b / 4))
        paths.append(p)
        lines.append(dict(label=p + '.1' if tool == 'fit' else '', pts=[[250 * a, 250 * b] for a, b in zip(t, v)]))
    o = dict(PLAIN, tool=tool, lines=lines)
    options(rng, o, tool, (1000, 9000), (2000, 18000))
    for a in ('xlim', 'ylim'):
        o[a] = [[max(v[0], 500)] if v else v for v in o[a]]
    o['axis'] = rng.choice(['', '', 'auto'])
    if rng.random() < .3: o['log'] = rng.choice([0, 1])
    o['cmap'] = ''
    if tool == 'spreading': o['legend'] = -1
    kw = keywords(o, rng)
    fig = os.path.join(dirn, 'fig.png')
    if o['save']: kw['save_fig'] = fig
    pics[:] = []
    opened[:] = [len(plt.get_fignums())]
    if tool == 'spreading':
        _, exc = call(view_spreading, paths, **kw)
    else:
        res, exc = call(fit_spreading_data, paths, **kw)
        try: o['fits'] = [[enc(a, 1000), enc(k, 1000)] for a, k in res]
        except Exception: o['fits'] = [[BAD, BAD]]
        o['lines'] = [dict(l, nums=[]) for l in lines]
    for l in o['lines']: l.setdefault('nums', [])
    return steps_of(o, 1, exc, [fig]), dirn


def interfaces(d, tool):
    rng = d.rng
    dirn = d.tmp()
    base = os.path.join(dirn, 'i')
    n = rng.choice([1, 2, 3])
    begin = rng.choice([1, 1, 4])
    for q in range(n):
        m = rng.randint(3, 6)
        L = [[rng.randint(0, 20), 4 * k] for k in range(m)]
        R = [[rng.randint(30, 50), 4 * k] for k in range(m)]
        with open('%s%05d.xvg' % (base, begin + q), 'w') as fp:
            for x, y in L + R[::-1]: fp.write('%.3f %.3f\n' % (x / 4, y / 4))
    o = dict(PLAIN, tool=tool)
    options(rng, o, tool, (0, 12000), (0, 5000))
    if tool == 'samples': o['xlim'], o['ylim'] = [[], []], [[], []]
    o['cmap'] = ''
    if tool != 'angles' and rng.random() < .7: o['legend'] = -1
    kw = keywords(o, rng)
    kw['quiet'] = True
    if begin != 1: kw['begin'] = begin
    fig = os.path.join(dirn, 'fig.png')
    if o['save']: kw['save_fig'] = fig if tool != 'interfaces' else os.path.join(dirn, 'out')
    pics[:] = []
    opened[:] = [len(plt.get_fignums())]
    pts = lambda xs, ys: [[enc(x, 1000), enc(y, 1000)] for x, y in zip(xs, ys)]
    line = lambda label, p: dict(label=label, nums=[], pts=p)
    if tool == 'interfaces':
        res, exc = call(view_interfaces, base, **kw)
        try: lines = [[line('', pts(x, y))] for x, y in zip(*res)]
        except Exception: lines = []
        lines += [[]] * (n - len(lines))
        return steps_of(o, n, exc, ['%s%05d.png' % (os.path.join(dirn, 'out'), begin + q) for q in range(n)], lines), dirn
    if tool == 'angles':
        fit, height = rng.choice([(True, None), (False, 1.5), (True, 1.5)])
        res, exc = call(interface_contact_angle, base, fit=fit, height=height, delta_t=rng.choice([1., 2.5]), **kw)
        try: lines = [line(l, pts(res[0], res[1][l])) for l in ('fit', 'measured') if (fit if l == 'fit' else height is not None)]
        except Exception: lines = []
    else:
        res, exc = call(sample_interfaces, base, rng.choice(['area', 'length']), **kw)
        try: lines = [line('', pts(res[0], res[1]))]
        except Exception: lines = []
    return steps_of(o, 1, exc, [fig], [lines]), dirn


TOOLS = [(fields, 'quiver'), (fields, 'height'), (fields, 'contour'), (fields, 'stream'), (curves, 'spreading'), (curves, 'fit'),
         (interfaces, 'interfaces'), (interfaces, 'angles'), (interfaces, 'samples')]


def tools(d):
    """Drawing tools, some after each other"""
    plt.close('all')
    plt.rcdefaults()
    steps = []
    for _ in range(d.rng.choice([1, 1, 2])):
        make, tool = d.rng.choice(TOOLS)
        s, dirn = make(d, tool)
        steps += s
        d.drop(dirn)
    plt.close('all')
    d.emit(k='history', steps=steps)


def main(d):
    for k, b in enumerate(d.behaviours()):
        if d.mine(k): history(d, b)
    for _ in range(d.a.count):
        tools(d)


run('decor', main)
