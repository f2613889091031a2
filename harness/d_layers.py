"""Interface collections: random droplets, and replayed motions of layers."""
import os, re
import numpy as np
from vlib import *
from strata.interface.collect import collect_interfaces

CS = 16000


def job(d, g, frames, o, real, fmt='gmx'):
    rng = d.rng
    dirn = d.tmp()
    begin = rng.choice([1, 1, 1, 0, 7, 99997])
    ext = rng.choice(['.dat', '.dat', '.map'])
    base = os.path.join(dirn, rng.choice(['in_', 'x.dat', 'a b']))
    out = os.path.join(dirn, 'out', rng.choice(['o_', 'i', 'sub/if.xvg']))
    X, Y = g.coords()
    n = len(X)
    un = units(rng, 'tiny' if fmt != 'simple_plain' else True)
    for q, v in enumerate(frames):
        dat = other_fields(rng, dict(X=X, Y=Y, M=np.array(v, float)), fmt)
        write_map('%s%05d%s' % (base, begin + q, ext), g, in_units(dat, un), fmt)
    end = None
    if real is None and rng.random() < .15: end = begin + rng.randint(0, len(frames) - 1)
    used = len(frames) if end is None else end - begin + 1
    via = rng.choice(['lib', 'cli'])
    recenter = rng.choice([0, 1, 1, 2])
    outext = '.xvg'
    if via == 'lib':
        kw = dict(begin=begin, ext=ext, quiet=rng.random() < .7)
        if end is not None: kw['end'] = end
        if recenter or rng.random() < .5: kw['recenter'] = [None, 'zero', 'com'][recenter]
        if rng.random() < .2: kw['outext'] = outext = rng.choice(['.dat', '.x'])
        for a, b in (('cutoff', 'cutoff'), ('radius', 'cutoff_radius'), ('cbins', 'cutoff_bins'), ('ylims', 'ylims')):
            if o[a] is not None: kw[b] = o[a] * un['M'] if a == 'cutoff' else o[a]
        _, exc = call(collect_interfaces, base, out, **kw)
        dflt = min(g.dx, g.dy) if g.nx > 1 and g.ny > 1 else (g.dx if g.nx > 1 else g.dy)
    else:
        a = ['interface', 'collect', base, out, '-b', begin, '--ext', ext]
        if end is not None: a += ['-e', end]
        if recenter != 1 or rng.random() < .5: a += ['--recenter', ['off', 'zero', 'com'][recenter]]
        if o['cutoff'] is not None: a += ['-co', o['cutoff'] * un['M']]
        if o['radius'] is not None: a += ['-cr', o['radius']]
        if o['cbins'] is not None: a += ['-cb', o['cbins']]
        if o['ylims'] is not None: a += ['--ylim', o['ylims'][0], o['ylims'][1]]
        dflt = 1.
        if o['radius'] is None and 2. >= g.nx * g.dx:
            dflt = o['radius'] = .25 * g.nx * g.dx
            a += ['-cr', dflt]
        _, exc = cli(*a)
    files, headed = [], []
    for q in range(used):
        p = '%s%05d%s' % (out, begin + q, outext)
        if not os.path.exists(p): break
        rows, names, body = [], 0, False
        for line in open(p):
            if line.startswith('#'):
                if body: names = -9
                if "'%s%05d%s'" % (base, begin + q, ext) in line: names += 1
            elif line.strip():
                body = True
                rows.append([enc(w, 1000) for w in line.split()])
        files.append(rows)
        headed.append(names)
    od = os.path.dirname(out)
    extra = (len(os.listdir(od)) if os.path.isdir(od) else 0) - len(files)
    radius = dflt if o['radius'] is None else o['radius']
    lo, hi = o['ylims'] or (None, None)
    lim = lambda v: [0, 0] if v is None else [1, enc(v, CS)]
    d.emit(k='ifc', via=via, g=grid_record(g, CS), frames=[[int(x) for x in v] for v in frames[:used]], recenter=recenter,
           lo=lim(lo), hi=lim(hi),
           o=dict(cutoff=two(o['cutoff']), cbins=1 if o['cbins'] is None else o['cbins'],
                  radius=enc(radius, CS), unit=250, one=CS, floor=[0, 0]),
           exc=exc, files=files, headed=headed, extra=extra, real=real or [])
    d.drop(dirn)


def motion(d, b):
    rng = d.rng
    n = b['n']
    if len(b['frames']) < 2: return
    dx = rng.choice([.5, 1., .25, 2.])
    dy = rng.choice([dx, dx, .5, 1., .1, .3, .7])
    g = Grid(n, b['rows'], dx, dy, dx * (b['x0'] + rng.choice([.5, .5, .5, 0, .25])), dy * rng.choice([.5, .5, 0, 3.5]))
    big = rng.choice([1, 5])
    frames = []
    for f in b['frames']:
        v = [0] * (n * g.ny)
        for j, (l, r) in zip(range(f['rows'][0], f['rows'][1] + 1), f['e']):
            for q in range(r - l + 1):
                v[((l + q) % n) * g.ny + j] = big
        frames.append(v)
    o = dict(cutoff=rng.choice([None, 1, .5]), cbins=0, radius=rng.choice([None, .25 * dx]), ylims=None)
    if rng.random() < .2: o['ylims'] = (g.y0 - dy, g.y0 + dy * g.ny)
    if o['radius'] is None and 2 * min(dx, dy) >= n * dx: o['radius'] = .25 * dx
    job(d, g, frames, o, b['frames'])


def random_job(d):
    rng = d.rng
    dx, dy = rng.choice([.25, .5, 1., 2., .75]), rng.choice([.25, .5, 1., 2.])
    g = Grid(rng.randint(3, 9), rng.randint(1, 5), dx, dy, dx * (rng.randint(-4, 4) + rng.choice([.5, 0])), dy * (rng.randint(-2, 4) + rng.choice([.5, 0])))
    nf = rng.randint(1, 4)
    vmax = rng.choice([1, 2, 9])
    frames = []
    a, w, lo, hi = rng.randint(0, g.nx - 1), rng.randint(1, g.nx), rng.randint(0, g.ny - 1), g.ny
    for q in range(nf):
        v = [0] * (g.nx * g.ny)
        a, w = a + rng.choice([-1, 0, 0, 1]), max(1, min(g.nx, w + rng.choice([-1, 0, 1, 1])))
        if rng.random() < .4: lo = max(0, lo - 1)
        for j in range(lo, g.ny):
            for k in range(max(0, w - rng.choice([0, 0, j - lo]))):
                v[((a + k) % g.nx) * g.ny + j] = rng.randint((vmax + 1) // 2, vmax)
        if rng.random() < .15 and g.ny > 2:
            # a layer with nothing between others
            j = rng.randint(1, g.ny - 2)
            for k in range(g.nx): v[k * g.ny + j] = 0
        if rng.random() < .25:
            for k in range(len(v)):
                if rng.random() < .1: v[k] = rng.randint(0, vmax)
        frames.append(v)
    box = g.nx * g.dx
    o = dict(cutoff=near(rng, rng.choice([None, None, 1, vmax / 2., vmax])), cbins=rng.choice([None, 1, 0, 0, 2]), radius=None, ylims=None)
    if rng.random() < .6 or 2 * min(dx, dy) >= box: o['radius'] = rng.choice([r for r in (dx, dy, 1., .25, 2 * dx, .375 * box, 0) if 2 * r < box])
    if rng.random() < .3: o['ylims'] = (rng.choice([None, g.y0, g.y0 + dy]), rng.choice([None, g.y0 + (g.ny - 1) * dy, g.y0 + (g.ny - 2) * dy]))
    if o['ylims'] and None in o['ylims'] and rng.random() < .5: o['ylims'] = None
    if g.ny == 1 and 2 * dx >= box: return
    fmt = 'gmx' if g.ny < 2 or rng.random() < .7 else rng.choice(['simple', 'simple_plain'])
    job(d, g, frames, o, None, fmt)


def main(d):
    if d.a.behaviours:
        for i, b in enumerate(d.behaviours()):
            if d.mine(i): motion(d, b)
    for k in range(d.a.count):
        random_job(d)


run('layers', main)
