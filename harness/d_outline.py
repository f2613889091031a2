"""Work on interface files: areas and lengths, averages, and contact angles."""
import math, os, re
import numpy as np
from vlib import *
from strata.interface.angle import interface_contact_angle
from strata.interface.sample import sample_interfaces
from strata.interface.view import view_interfaces

U = 8                     # coordinates are in units of 1/8


def outline(rng, d, heights=None, bad=.0):
    """A sequence of points, in units."""
    big = rng.random() < .3
    n = rng.choice([1, 2, 2, 3, 4, 5, 7])
    if heights is None:
        y = rng.choice([0, 0, 0, 4, -3, 10])
        step = rng.choice([0, 0, 1, 4, 8])
        heights = []
        for k in range(n):
            heights.append(y)
            y += step or rng.randint(1, 24)
    x = rng.randint(-160, 160) if big else rng.randint(-30, 30)
    xl, xr = x, x + rng.randint(1, 200 if big else 40)
    L, R = [], []
    for y in heights:
        L.append([xl, y]); R.append([xr, y])
        w = rng.choice([3, 10, 40])
        xl += rng.randint(-w, w); xr += rng.randint(-w, w)
        if xl > xr and rng.random() < .8: xl, xr = xr, xl
        if rng.random() < .1: xr = xl
    if len(R) > 1 and rng.random() < bad:
        k = rng.randrange(1, len(R))
        R[k][1] += rng.choice([1, 2]) if k == len(R) - 1 else 0
    return L + R[::-1]


def write(path, P, rng):
    with open(path, 'w') as fp:
        if rng.random() < .7: fp.write('# x (nm) y (nm)\n')
        if P is None: return
        for x, y in P:
            fp.write('%.3f %.3f\n' % (x / U, y / U))


def rows(path, scale=1000):
    if not os.path.exists(path): return []
    return [[enc(w, scale) for w in l.split()] for l in open(path) if l.strip() and not l.startswith('#')]


def series(d, make, extra=.5):
    """A directory with files, the options to select them, and those selected."""
    rng = d.rng
    dirn = d.tmp()
    base = os.path.join(dirn, rng.choice(['if', 'a b/o_', 'x.xvg']))
    os.makedirs(os.path.dirname(base), exist_ok=True)
    begin = rng.choice([1, 1, 1, 0, 3, 8, 99998])
    n = rng.choice([0, 1, 2, 3, 4, 6, 9]) if rng.random() < .95 else 13
    ext = rng.choice(['.xvg', '.xvg', '.dat', ''])
    files = make(n)
    for k, P in enumerate(files):
        write('%s%05d%s' % (base, begin + k, ext), P, rng)
    if rng.random() < extra:          # beyond a gap, and before the first
        write('%s%05d%s' % (base, begin + n + 1, ext), outline(rng, d), rng)
        if begin: write('%s%05d%s' % (base, begin - 1, ext), outline(rng, d), rng)
    kw, opt = {}, []
    if begin != 1 or rng.random() < .3: kw['begin'] = begin; opt += ['-b', begin]
    if ext != '.xvg' or rng.random() < .3: kw['ext'] = ext; opt += ['--ext', ext]
    if rng.random() < .25:
        end = begin + rng.randint(0, n)
        kw['end'] = end; opt += ['-e', end]
        files = files[:end - begin + 1]
    if rng.random() < .5: kw['quiet'] = True
    kw['show'] = False
    return dirn, base, begin, files, kw, opt


def sample(d):
    rng = d.rng
    dirn, base, begin, files, kw, opt = series(d, lambda n: [outline(rng, d, bad=.15) for _ in range(n)])
    var = rng.choice(['area', 'length'])
    dt = rng.choice([1., 1., .5, 10., .125])
    save = os.path.join(dirn, rng.choice(['out.xvg', 's/out'])) if rng.random() < .7 else None
    via = rng.choice(['lib', 'lib', 'cli'])
    if via == 'lib':
        if save: kw['save_xvg'] = save
        if dt != 1. or rng.random() < .5: kw['delta_t'] = dt
        r, exc = call(sample_interfaces, base, var, **kw)
        times, vals = r if not exc else ([], [])
    else:
        if save: opt += ['-x', save]
        if dt != 1.: opt += ['-dt', dt]
        _, exc = cli('interface', 'sample', base, var, '--noshow', *opt)
        times, vals = [], []
    d.emit(k='sample', via=via, var=var, dt=enc(dt, 1000), files=files, exc=exc, saved=int(bool(save)),
           times=encs(times, 1000), vals=encs(vals, 1000), rows=rows(save) if save else [])
    d.drop(dirn)


def view(d):
    rng = d.rng
    h0 = sorted(rng.sample(range(0, 40), rng.randint(1, 7)))
    same, bad = rng.random() < .3, rng.choice([0, 0, .08, .2])

    def make(n):
        r = []
        for _ in range(n):
            h = h0 if same else sorted(rng.sample(h0, rng.randint(1, len(h0)))) if rng.random() < .7 else h0
            r.append(None if rng.random() < bad else outline(rng, d, h))
        return r
    dirn, base, begin, files, kw, opt = series(d, make)
    av = rng.choice([1, 2, 2, 3, 4, 5])
    save = os.path.join(dirn, rng.choice(['out', 's/av_'])) if rng.random() < .75 else None
    fig = os.path.join(dirn, 'fig') if rng.random() < .03 else None
    ext = kw.get('ext', '.xvg')
    via = rng.choice(['lib', 'lib', 'cli'])
    if via == 'lib':
        if save: kw['save_xvg'] = save
        if fig: kw['save_fig'] = fig; kw['dpi'] = 20
        if av != 1 or rng.random() < .5: kw['average'] = av
        r, exc = call(view_interfaces, base, **kw)
        ret = [[[enc(x, 120 * U), enc(y, 120 * U)] for x, y in zip(xs, ys)] for xs, ys in zip(*r)] if not exc else []
        if not exc and any(len(a) != len(b) for a, b in zip(*r)): ret = [[[BAD, BAD]]]
    else:
        if save: opt += ['-x', save]
        if fig: opt += ['-o', fig]
        if av != 1: opt += ['-av', av]
        _, exc = cli('interface', 'view', base, '--noshow', *opt)
        ret = []
    out, figs = [], []
    for dn, _, fns in os.walk(dirn):
        for fn in sorted(fns):
            p = os.path.join(dn, fn)
            if save and p.startswith(save):
                m = re.fullmatch(r'(\d{5,})' + re.escape(ext), p[len(save):])
                out.append(dict(n=int(m.group(1)) if m else -1, rows=rows(p)))
            elif fig and p.startswith(fig):
                m = re.fullmatch(r'(\d{5,})\.png', p[len(fig):])
                figs.append(int(m.group(1)) if m else -1)
    d.emit(k='view', via=via, av=av, begin=begin, files=[P or [] for P in files], exc=exc, saved=int(bool(save)), ret=ret,
           out=sorted(out, key=lambda o: o['n']), figures=int(bool(fig)), figs=sorted(figs))
    d.drop(dirn)


def direction(a, half=False):
    a = float(a)
    if not math.isfinite(a): return [BAD, BAD, BAD]
    t = math.radians(a / 2 if half else a)
    return [enc(a, 1000), enc(math.cos(t), 20000), enc(math.sin(t), 20000)]


def angle(d):
    rng = d.rng
    fit = rng.random() < .5
    def make(n):
        r = []
        for _ in range(n):
            P = outline(rng, d, bad=.3)
            y = P[0][1]
            if fit or rng.random() < .6: P = [[x, v - y] for x, v in P]      # segments are those above the surface
            if P[-1][0] <= P[0][0]: P[-1][0] = P[0][0] + 5
            r.append(P)
        return r
    dirn, base, begin, files, kw, opt = series(d, make)
    height = rng.choice([None, 4, 8, 8, 12, 20, 3, 100])
    dt = rng.choice([1., 1., .5, 10., .125])
    save = os.path.join(dirn, rng.choice(['out.xvg', 's/out'])) if rng.random() < .7 else None
    via = rng.choice(['lib', 'lib', 'cli'])
    got = dict(left=[], right=[], measured=[], fit=[])
    times = []
    if via == 'lib':
        if save: kw['save_xvg'] = save
        if fit or rng.random() < .5: kw['fit'] = fit
        if height is not None: kw['height'] = height / U
        if dt != 1. or rng.random() < .5: kw['delta_t'] = dt
        r, exc = call(interface_contact_angle, base, **kw)
        if not exc: times, got = r
    else:
        if save: opt += ['-x', save]
        if fit: opt += ['--fit']
        if height is not None: opt += ['-h', height / U]
        if dt != 1.: opt += ['-dt', dt]
        _, exc = cli('interface', 'angle', base, *opt)
    rw, ff = [], []
    if save and os.path.exists(save):
        for l in open(save):
            if l.strip() and not l.startswith('#'):
                w = l.split()
                rw.append([direction(v) for v in w])
                ff.append(direction(w[-1], True))
    d.emit(k='angle', via=via, files=files, fit=int(fit), height=[0, 0] if height is None else [1, height], dt=enc(dt, 1000), exc=exc,
           saved=int(bool(save)), times=encs(times, 1000), left=[direction(a) for a in got['left']],
           right=[direction(a) for a in got['right']], mean=[direction(a) for a in got['measured']],
           fits=[direction(a, True) for a in got['fit']], rows=rw, filefits=ff)
    d.drop(dirn)


def main(d):
    f = {'P23': sample, 'P24': view, 'P25': angle}[d.a.prop]
    for k in range(d.a.count):
        f(d)


run('outline', main)
