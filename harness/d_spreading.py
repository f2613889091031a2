"""Spreading collections: random droplets, and replayed motions."""
import os, re
import numpy as np
from vlib import *
from strata.spreading.collect import collect

CS, TS = 16000, 8000


def job(d, g, frames, o, real, fmt='gmx'):
    """o: floor, cutoff, radius, cbins (None: left out)."""
    rng = d.rng
    dirn = d.tmp()
    begin = rng.choice([1, 1, 1, 0, 7, 99997])
    ext = rng.choice(['.dat', '.dat', '.map'])
    base = os.path.join(dirn, rng.choice(['in_', 'x.dat', 'a b']))
    X, Y = g.coords()
    n = len(X)
    un = units(rng, 'tiny' if fmt != 'simple_plain' else True)
    for q, v in enumerate(frames):
        dat = other_fields(rng, dict(X=X, Y=Y, M=np.array(v, float)), fmt)
        write_map('%s%05d%s' % (base, begin + q, ext), g, in_units(dat, un), fmt)
    end = None
    if real is None and rng.random() < .2: end = begin + rng.randint(0, len(frames) - 1)
    used = len(frames) if end is None else end - begin + 1
    dt = rng.choice([1., 1., .5, 2.5, 10., .125, 1 / 64])
    t0 = rng.choice([0., 0., 0., 5., -3.5, 1 / 64])
    via = rng.choice(['lib', 'cli']) if o['floor'] is not None else 'lib'
    save = os.path.join(dirn, rng.choice(['s.xvg', 'new/o.xvg'])) if rng.random() < .8 or real else None
    if save and rng.random() < .15 and '/new/' not in save:
        open(save, 'w').write('0 1 2 3\n')
    verbose = 0
    ret, txt = None, ''
    if via == 'lib':
        kw = dict(begin=begin, ext=ext, quiet=rng.random() < .7)
        if end is not None: kw['end'] = end
        if dt != 1.: kw['dt'] = dt
        if t0 != 0.: kw['t0'] = t0
        if save: kw['save'] = save
        for a, b in (('floor', 'floor'), ('cutoff', 'cutoff'), ('radius', 'cutoff_radius'), ('cbins', 'cutoff_bins')):
            if o[a] is not None: kw[b] = o[a] * un['M'] if a == 'cutoff' else o[a]
        ret, exc = call(collect, base, **kw)
    else:
        verbose = int(rng.random() < .5)
        a = ['spreading', 'collect', '-b', begin, '--ext', ext]
        if end is not None: a += ['-e', end]
        if dt != 1.: a += ['-dt', dt]
        if t0 != 0.: a += ['-t0', t0]
        a += ['-o', save] if save else ['--nooutput']
        if o['cutoff'] is not None: a += ['-co', o['cutoff'] * un['M']]
        if o['radius'] is not None: a += ['-cr', o['radius']]
        if o['cbins'] is not None: a += ['-cb', o['cbins']]
        if verbose: a += ['-v']
        a += ['--', base, o['floor']]
        txt, exc = cli(*a)
    times = radii = []
    try:
        times, radii = encs(ret['t'], TS), encs(ret['r'], CS)
    except Exception:
        pass
    rows, impact, exists = [], [], 0
    if save:
        exists = int(os.path.exists(save))
        for line in open(save) if exists else []:
            m = re.match(r'#\s+Time: (\S+) ps', line)
            if m: impact.append(enc(m.group(1), TS))
            m = re.match(r"#\s+File: '(.*)'$", line)
            if m:
                name = m.group(1)
                pre = os.path.basename(base)
                num = name[len(pre):len(name) - len(ext)]
                impact.append(int(num) if name.startswith(pre) and name.endswith(ext) and num.isdigit() and len(num) >= 5 else -1)
            if line.strip() and not line.startswith('#'):
                rows.append([enc(w, 1000 if q else TS) for q, w in enumerate(line.split())])
    shown, on = [], False
    for line in txt.splitlines():
        if line.startswith('Time (ps)'): on = True
        elif on and line.strip(): shown.append([enc(w, 1000 if q else TS) for q, w in enumerate(line.split())])
    shown = [s for s in shown if len(s) == 2] if all(len(s) == 2 for s in shown) else [[BAD, BAD]] * (len(shown) + 99)
    radius = 1. if o['radius'] is None else o['radius']
    d.emit(k='collect', via=via, g=grid_record(g, CS), frames=[[int(x) for x in v] for v in frames[:used]], begin=begin,
           o=dict(cutoff=two(o['cutoff']), cbins=1 if o['cbins'] is None else o['cbins'],
                  radius=enc(radius, CS), unit=250, one=CS, floor=[0, 0] if o['floor'] is None else [1, enc(o['floor'], CS)]),
           dt=enc(dt, TS), t0=enc(t0, TS), exc=exc, ret=int(via == 'lib'), times=times, radii=radii,
           printed=verbose, shown=shown, file=int(bool(save)), exists=exists, rows=rows, impact=impact, real=real or [])
    d.drop(dirn)


def motion(d, b):
    rng = d.rng
    n = b['n']
    dx = rng.choice([.5, 1., .25, 2.])
    dy = rng.choice([dx, .5, 1.])
    g = Grid(n, rng.randint(2, 3), dx, dy, dx * (b['x0'] + rng.choice([.5, .5, .5, 0, .25])), dy * rng.choice([.5, .5, 0, 3.5]))
    big = rng.choice([1, 5])
    frames = []
    for touch, l, r in b['frames']:
        v = [0] * (n * g.ny)
        cells = [(l + q) % n for q in range(r - l + 1)]
        for i in cells:
            for j in range(0 if touch else 1, g.ny):
                v[i * g.ny + j] = big
        frames.append(v)
    o = dict(floor=g.y0 - rng.choice([.5, .25, .75]) * min(1, dy), cutoff=rng.choice([None, 1, .5]), cbins=rng.choice([None, 1, 0]), radius=None)
    # a filled neighbour above is within the radius
    if dy > 1. or 2. >= n * dx or rng.random() < .5: o['radius'] = dy if 2 * dy < n * dx else .25 * n * dx
    if (1. if o['radius'] is None else o['radius']) < dy: o['cbins'] = 0
    if any(t for t, _, _ in b['frames']) and len(set(x for v in frames for x in v)) == 1: return
    # a homogeneous map has no interface under the default cutoff
    if any(len(set(v)) == 1 for v in frames): o['cutoff'] = 1
    job(d, g, frames, o, b['frames'])


def timeline(d):
    rng = d.rng
    dx, dy = rng.choice([.25, .5, 1., 2., .75]), rng.choice([.25, .5, 1., 2.])
    fine = rng.random() < .15
    if fine: dx, dy = rng.choice([.3, .35, .1, .26]), rng.choice([.3, .35, .7])
    g = Grid(rng.randint(3, 9), rng.randint(1, 4), dx, dy, dx * (rng.randint(-4, 4) + rng.choice([.5, 0])), dy * (rng.randint(-2, 4) + rng.choice([.5, 0])))
    nf = rng.randint(1, 5)
    vmax = rng.choice([1, 2, 9])
    frames = []
    a, w = rng.randint(0, g.nx - 1), rng.randint(1, g.nx)
    lift = rng.choice([0, 0, 1, 2])
    for q in range(nf):
        v = [0] * (g.nx * g.ny)
        a, w = a + rng.choice([-1, 0, 0, 1]), max(1, min(g.nx, w + rng.choice([-1, 0, 1, 1])))
        for j in range(g.ny):
            if j < lift - q or (rng.random() < .15): continue
            for k in range(max(0, w - rng.choice([0, 0, j]))):
                v[((a + k) % g.nx) * g.ny + j] = rng.randint(1, vmax)
        if rng.random() < .4:
            for k in range(len(v)):
                if rng.random() < .1: v[k] = rng.randint(0, vmax)
        frames.append(v)
    box = g.nx * g.dx
    o = dict(floor=None, cutoff=near(rng, rng.choice([None, None, 1, vmax / 2., vmax, vmax + 1])), cbins=rng.choice([None, 1, 1, 0, 2]), radius=None)
    if rng.random() < .85:
        o['floor'] = near(rng, rng.choice([g.y0 - .5, g.y0 - .25, g.y0, g.y0 + dy * rng.randint(0, g.ny) - .125, 0., g.y0 - 3]), 1 / 128)
    if fine:        # no two bins as far apart as the radius
        o['radius'] = rng.choice([f * (dx + dy) for f in (.37, .53, .81)])
        if 2 * o['radius'] >= box: o['radius'] = 0.
        if o['floor'] is not None: o['floor'] = g.y0 + dy * (rng.randint(-1, g.ny) - .25)
    elif rng.random() < .6 or 2 >= box: o['radius'] = rng.choice([r for r in (dx, dy, 1., .25, 2 * dx, .375 * box, 0) if 2 * r < box])
    fmt = 'gmx' if g.ny < 2 or rng.random() < .7 else rng.choice(['simple', 'simple_plain'])
    job(d, g, frames, o, None, fmt)


def main(d):
    if d.a.behaviours:
        for i, b in enumerate(d.behaviours()):
            if d.mine(i): motion(d, b)
    for k in range(d.a.count):
        timeline(d)


run('spreading', main)
