"""Contact line extractions (P17), collections (P18), and samples (P19)."""
import os
import numpy as np
from vlib import *
from droplets.flow import FlowData
from droplets.contact_line import adjust_cell_coordinates, get_contact_line_cells
from strata.contact_line_analysis import extract_contact_line_bins, sample_contact_line_edges

CS = 16000
VS = 1000


def lim(v):
    return [0, 0] if v is None else [1, enc(v, CS)]


def minspace(g):
    return min([g.dx] * (g.nx > 1) + [g.dy] * (g.ny > 1))


def orec(g, o):
    radius = o['radius'] if o['radius'] is not None else minspace(g)
    return dict(cutoff=two(o['cutoff']), cbins=1 if o['cbins'] is None else o['cbins'], radius=enc(radius, CS), unit=250,
                floor=[0, 0], one=CS)


# ------------------------------------------------------------------ extraction

def cells(d, g, v, o, area, sync, order, labels, lims):
    X, Y = g.coords()
    n = len(v)
    mu = d.rng.choice([1., 1., 1., 8., 2.**-6, 2.**-20])
    cols = [(labels[0], X[order]), (labels[1], Y[order]), ('M', mu * np.array(v, float)[order]), ('Z', np.arange(n, dtype=float)[order])]
    if d.rng.random() < .5: cols.insert(d.rng.randint(0, 4), ('W', np.arange(n, dtype=float)[order] * 2 + 1))
    flow = FlowData(*cols, info=dict(shape=(g.nx, g.ny), spacing=(g.dx, g.dy), origin=(g.x0, g.y0), num_bins=n))
    kw = {}
    if o['cutoff'] is not None: kw['cutoff'] = o['cutoff'] * mu
    if o['radius'] is not None: kw['cutoff_radius'] = o['radius']
    if o['cbins'] is not None: kw['cutoff_bins'] = o['cbins']
    if lims is not None: kw['ylims'] = lims
    if labels != ('X', 'Y'): kw['coord_labels'] = labels
    if area is not None: kw['extract_area'] = area
    if sync is not None: kw['extract_height'] = sync
    before = flow.data.tobytes()
    res, exc = call(get_contact_line_cells, flow, 'M', **kw)
    out = [[], []]
    same = int(flow.data.tobytes() == before)
    try:
        assert len(res) == 2
        for s in (0, 1):
            for row in res[s]:
                k = int(row['Z'])
                ok = 0 <= k < n and row[labels[0]] == X[k] and row[labels[1]] == Y[k] and row['M'] == mu * v[k] \
                    and len(row) == len(cols) and ('W' not in row.dtype.names or row['W'] == 2 * k + 1)
                out[s].append(k + 1 if ok else -1)
            if len(res[s]): res[s]['M'] += 1.
        same &= int(flow.data.tobytes() == before)
    except Exception:
        out = [[-1], [-1]]
    lo, hi = lims or (None, None)
    d.emit(k='cells', g=grid_record(g, CS), v=[int(x) for x in v], exc=exc, res=out, same=same, lo=lim(lo), hi=lim(hi),
           aw=enc(area[0] if area else 0, CS), ah=enc(area[1] if area else 0, CS), eh=enc(sync or 0, CS), o=orec(g, o))


def droplet(rng, g, vmax):
    """Values of a droplet of varying extent in its layers, with noise."""
    v = [0] * (g.nx * g.ny)
    a, b = sorted((rng.randint(0, g.nx - 1), rng.randint(0, g.nx - 1)))
    low = rng.choice([0, 0, 0, rng.randint(0, g.ny - 1)])
    for j in range(low, g.ny):
        for i in range(max(0, a), min(g.nx - 1, b) + 1):
            v[i * g.ny + j] = rng.randint((vmax + 1) // 2, vmax)
        a, b = a + rng.choice([-2, -1, 0, 0, 1, 2]), b + rng.choice([-2, -1, 0, 0, 1, 2])
        if a > b or rng.random() < .07: break
    if rng.random() < .4:
        for k in range(len(v)):
            if rng.random() < .08: v[k] = rng.randint(0, vmax)
    return v


def extraction(d):
    rng = d.rng
    dx, dy = rng.choice([.25, .5, 1., .125, .75, 2.]), rng.choice([.25, .5, 1., .125, .75, 2.])
    g = Grid(rng.randint(1, 12), rng.randint(1, 6), dx, dy, dx * (rng.randint(-8, 8) + rng.choice([.5, 0, .25])), dy * (rng.randint(-3, 5) + rng.choice([.5, 0])))
    if g.nx * g.ny < 2: g.nx = 2
    vmax = rng.choice([1, 2, 9])
    if rng.random() < .7:
        v = droplet(rng, g, vmax)
    else:
        p = rng.choice([.1, .3, .6, .9])
        v = [rng.randint(1, vmax) if rng.random() < p else 0 for _ in range(g.nx * g.ny)]
    o = dict(cutoff=near(rng, rng.choice([None, None, 1, vmax / 2, vmax, 2.5, vmax + 1])), cbins=rng.choice([None, 1, 1, 0, 2, 3]), radius=None)
    m = min(dx, dy)
    if rng.random() < .6: o['radius'] = rng.choice([m, max(dx, dy), 2 * m, 1.5 * m, .5 * m, dx + .125])
    area = None if rng.random() < .1 else (dx * rng.choice([0, 0, .5, 1, 1, 1.25, 2, 3, 3.75, 20]), dy * rng.choice([0, 0, .5, 1, 1, 2, 2.75, 10]))
    sync = None if rng.random() < .3 else dy * rng.choice([0, .75, 1, 1, 2, 2.5, 3, 10])
    order = list(range(g.nx * g.ny))
    r = rng.random()
    if r < .4: rng.shuffle(order)
    elif r < .7: order.sort(key=lambda q: (q % g.ny, q // g.ny))
    lims = None
    if rng.random() < .35:
        lims = (rng.choice([None, g.y0, g.y0 + dy, g.y0 + .5 * dy]), rng.choice([None, None, g.y0 + (g.ny - 1) * dy, g.y0 + dy]))
    cells(d, g, v, o, area, sync, order, rng.choice([('X', 'Y')] * 3 + [('a', 'b')]), lims)


def shift(d):
    """Cells of an edge, moved to the origin."""
    rng = d.rng
    dx, dy = rng.choice([.25, .5, 1., .75]), rng.choice([.25, .5, 1., 2.])
    x0, y0 = dx * rng.randint(-9, 9), dy * rng.randint(-3, 9)
    n = rng.choice([0, 1, 2, 3, 5, 8])
    pts = [(x0 + dx * rng.randint(0, 4), y0 + dy * rng.randint(0, 3)) for _ in range(n)]
    labels = rng.choice([('X', 'Y')] * 3 + [('a', 'b')])
    cols = [(labels[0], np.array([p[0] for p in pts])), (labels[1], np.array([p[1] for p in pts])), ('Z', np.arange(n) * 1.)]
    recs = FlowData(*cols).data
    before = recs.tobytes()
    side = rng.choice([1, 2])
    kw = {} if labels == ('X', 'Y') else dict(coord_labels=labels)
    res, exc = call(adjust_cell_coordinates, recs, ['left', 'right'][side - 1], **kw)
    adj, out = [BAD, BAD], []
    try:
        (a, b), c = res
        adj = [enc(a, CS), enc(b, CS)]
        out = [[enc(r[labels[0]], CS), enc(r[labels[1]], CS)] if r['Z'] == q else [BAD, BAD] for q, r in enumerate(c)]
        if n: c[labels[0]] = 77.
    except Exception:
        pass
    d.emit(k='shift', cells=[[enc(x, CS), enc(y, CS)] for x, y in pts], side=side, exc=exc, adj=adj, res=out, same=int(recs.tobytes() == before))


# ------------------------------------------------------------------ jobs

def values(rng, g, v):
    """Flow data with the mass v."""
    n = g.nx * g.ny
    X, Y = g.coords()
    dat = {'X': X, 'Y': Y, 'M': np.array(v, float)}
    for l in ('N', 'T', 'U', 'V'): dat[l] = np.zeros(n)
    for k in range(n):
        if v[k]:
            dat['N'][k] = rng.randint(0, 9) if rng.random() < .1 else rng.randint(1, 9)
            dat['T'][k] = rng.randint(0, 9) if dat['N'][k] else 0
            dat['U'][k] = rng.randint(-9, 9)
            dat['V'][k] = rng.randint(-9, 9)
    return dat


def blob(rng, g, l, r, vmax=9):
    """Mass of a droplet whose lowest layer covers the columns l to r."""
    v = [0] * (g.nx * g.ny)
    if l is None: return v
    for j in range(g.ny):
        for i in range(max(0, l), min(g.nx - 1, r) + 1):
            v[i * g.ny + j] = rng.randint(4, vmax)
        l, r = l + rng.choice([-1, 0, 0, 1]), r + rng.choice([-1, 0, 0, 1])
        if l > r: break
    return v


def job(d, grids, vs, av, rolling, samp, opts=None):
    rng = d.rng
    g = grids[0]
    o = dict(cutoff=rng.choice([None, 1, 2.5, 4]), cbins=rng.choice([1, 1, 0, 2]), radius=rng.choice([1., .5, 2 * max(g.dx, g.dy), max(g.dx, g.dy)]))
    if opts: o.update(opts)
    if any(not any(v) for v in vs) and o['cutoff'] is None and rng.random() < .5: o['cutoff'] = 1
    via = 'lib' if rng.random() < .5 else 'cli'
    area = (g.dx * rng.choice([0, 1, 1, 2, 2.5, 4]), g.dy * rng.choice([0, 1, 1, 2, 10]))
    sync = rng.choice([0, 0, g.dy, 2 * g.dy])
    floor = None if rng.random() < .7 else g.y0 + g.dy * rng.choice([-1, 0, 0, .5, 1])
    recenter, fuse = rng.random() < .5, rng.random() < .3 and not samp
    dt = rng.choice([1, 1, 2, .5, 1.25])
    total = rng.random() < .35
    labels = rng.sample(['M', 'N', 'T', 'U', 'V', 'inertial_energy'], rng.randint(1, 5))
    if rng.random() < .15: labels.append(labels[0])
    begin = rng.choice([1, 1, 1, 0, 4, 99998])
    nf = len(vs)
    used, end = nf, None
    if rng.random() < .2:
        used = rng.randint(1, nf)
        end = begin + used - 1
    fmt = 'gmx' if rng.random() < .75 or any(h.nx < 2 or h.ny < 2 for h in grids) else rng.choice(['simple', 'simple_plain'])
    dirn = d.tmp()
    base = os.path.join(dirn, rng.choice(['in_', 'a', 'dens.x']))
    out = os.path.join(dirn, rng.choice(['out_', 'sub/b', 'o']))
    ext = rng.choice(['.dat', '.dat', '.map', ''])
    datas = []
    un = units(rng, not samp and (fmt == 'simple_plain' or 'tiny'))        # a sample is saved with few decimals
    un['inertial_energy'] = un['M'] * un['U']**2
    for k in range(nf):
        dat = values(rng, grids[k], vs[k])
        datas.append(dat)
        write_map('%s%05d%s' % (base, begin + k, ext), grids[k], in_units(dat, un), fmt)
    kw = dict(average=av, rolling=rolling, begin=begin, ext=ext, quiet=rng.random() < .5)
    if end is not None: kw['end'] = end
    if o['cutoff'] is not None: kw['cutoff'] = o['cutoff'] * un['M']
    kw['cutoff_bins'] = o['cbins']
    if floor is not None or rng.random() < .3: kw['floor'] = floor
    a = [base, '-av', av, '-b', begin, '--ext', ext, '-cb', o['cbins']]
    if end is not None: a += ['-e', end]
    if rolling: a += ['--rolling']
    if floor is not None: a += ['--floor', floor]
    if o['cutoff'] is not None: a += ['-co', o['cutoff'] * un['M']]
    default = rng.random() < .15
    if default:                                   # the defaults of the area and radius
        area = (0., 0.) if via == 'lib' or samp else (1., 1.)
        sync = 0.
        if via == 'cli': o['radius'] = 1.
        else: o['radius'] = min(minspace(h) for h in grids) if len({minspace(h) for h in grids}) == 1 else o['radius']
    if not default or (via == 'lib' and len({minspace(h) for h in grids}) > 1):
        kw.update(extract_area=area, extract_height=sync, cutoff_radius=o['radius'])
        a += ['-ea', area[0], area[1], '-eh', sync, '-cr', o['radius']]
    if recenter: kw['recenter'] = True
    elif rng.random() < .5: kw['recenter'] = False
    a += ['--recenter'] if recenter and rng.random() < .5 else ([] if recenter else ['--norecenter'])
    rec = dict(via=via, fmt=fmt, grids=[grid_record(h, CS) for h in grids[:used]], maps=[data_rows(x) for x in datas[:used]],
               av=av, rolling=int(rolling), aw=enc(area[0], CS), ah=enc(area[1], CS), eh=enc(sync, CS), floor=lim(floor), o=orec(g, o))
    if not samp:
        if fuse: kw['fuse'] = True
        if via == 'lib':
            _, exc = call(extract_contact_line_bins, base, out, **kw)
        else:
            _, exc = cli('contact-line', 'collect', a[0], out, *(a[1:] + (['--fuse'] if fuse else [])))
        outs = []
        while os.path.exists('%s%05d%s' % (out, begin + len(outs), ext)):
            outs.append(map_record('%s%05d%s' % (out, begin + len(outs), ext), CS, VS, un))
        d.emit(k='collect', exc=exc, out=outs, recenter=int(recenter), fuse=int(fuse), **rec)
    else:
        save = None if via == 'lib' and rng.random() < .5 else out + '.xvg'
        times, vals, ret = [], [], 0
        if via == 'lib':
            if save: kw['save'] = save
            if total: kw['sum'] = True
            if dt != 1 or rng.random() < .5: kw['dt'] = dt
            res, exc = call(sample_contact_line_edges, base, rng.choice([list, tuple])(labels), **kw)
            try:
                times, vals = [enc(t, 1000) for t in res[0]], [[enc(v[0] / un[l], VS) for v in s] for l, s in zip(labels, res[1])] if len(labels) == len(res[1]) else []
                ret = 1
            except Exception:
                ret, times, vals = 1, [BAD], []
        else:
            a += ['--save', save]
            if dt != 1 or rng.random() < .5: a += ['-dt', dt]
            if total or rng.random() < .5: a += ['--process', 'sum' if total else 'mean']
            _, exc = cli('contact-line', 'sample', a[0], *(labels + a[1:]))
        rows, odd = [], 0
        if save:
            try:
                with open(save) as fp:
                    for line in fp:
                        if line.startswith('#') or not line.strip(): continue
                        w = line.split()
                        rows.append([enc(float(w[0]), 1000)] + [enc(float(x) / un[l], VS) for l, x in zip(labels, w[1:])])
                        odd |= int(len(w) != len(labels) + 1)
            except Exception:
                odd = 1
        d.emit(k='sample', exc=exc, ret=ret, times=times, vals=vals, file=int(save is not None), rows=rows, odd=odd,
               labels=labels, sum=int(total), dt=enc(dt, 1000), cut=two(o['cutoff']), **rec)
    d.drop(dirn)


def random_job(d, samp):
    rng = d.rng
    dx, dy = rng.choice([.25, .5, 1., 2., .75]), rng.choice([.25, .5, 1., 2.])
    nf = rng.randint(1, 7)
    av = rng.randint(1, min(4, nf)) if rng.random() < .93 else nf + 1
    nx, ny = rng.randint(5, 14), rng.randint(1, 4)
    ox = rng.choice([.5, .5, 0, .25])
    grids, vs = [], []
    a, b = sorted((rng.randint(0, nx - 1), rng.randint(0, nx - 1)))
    var = rng.random() < .2
    gone = rng.choice([0, 0, .2, .5])
    g0 = Grid(nx, ny, dx, dy, dx * (rng.randint(-6, 4) + ox), dy * (rng.randint(0, 2) + .5))
    for k in range(nf):
        g = Grid(nx + rng.randint(0, 2), ny + rng.randint(0, 1), dx, dy, g0.x0 + dx * rng.randint(-2, 2), g0.y0 + rng.choice([0, dy])) if var else g0
        a, b = max(0, a + rng.choice([-1, 0, 0, 1])), min(g.nx - 1, b + rng.choice([-1, 0, 0, 1]))
        if rng.random() < gone and ((av > 1 and vs and any(vs[-1])) or rng.random() < .1): v = blob(rng, g, None, None)
        elif rng.random() < .2: v = [rng.randint(0, 9) if rng.random() < .4 else 0 for _ in range(g.nx * g.ny)]
        else: v = blob(rng, g, a, b)
        grids.append(g); vs.append(v)
    job(d, grids, vs, av, rng.random() < .4, samp)


def behaviour(d, b, samp):
    """A series of edges of single layers from the design model."""
    rng = d.rng
    dx = rng.choice([.25, .5, 1., 2., .75])
    g = Grid(b['nx'], rng.randint(1, 2), dx, dx, dx * (b['x0'] + rng.choice([.5, .5, 0])), .5 * dx)
    vs = []
    for f in b['frames']:
        v = [0] * (g.nx * g.ny)
        if f:
            for i in range(f[0], f[1] + 1):
                for j in range(g.ny): v[i * g.ny + j] = rng.randint(4, 9)
        vs.append(v)
    if not vs: return
    job(d, [g] * len(vs), vs, b['av'], bool(b['rolling']), samp, dict(cutoff=1, cbins=0))


def main(d):
    if d.a.prop == 'P17':
        import itertools
        k = 0
        for nx, ny in ((3, 2), (2, 3), (4, 2)) + (((3, 3), (5, 2)) if d.thorough else ()):
            for bits in itertools.product((0, 1), repeat=nx * ny):
                k += 1
                if d.mine(k):
                    g = Grid(nx, ny, 1., 1., d.rng.choice([.5, -2., 0.]), .5)
                    cells(d, g, bits, dict(cutoff=1, cbins=d.rng.choice([0, 0, 1]), radius=1.), (float(d.rng.randint(0, 2)), float(d.rng.randint(0, 2))),
                          float(d.rng.randint(0, 2)), list(range(nx * ny)), ('X', 'Y'), None)
        for _ in range(d.a.count): extraction(d)
        return
    samp = d.a.prop == 'P19'
    for _ in range(0 if samp else d.a.count // 2): shift(d)
    if d.a.behaviours:
        for i, b in enumerate(d.behaviours()):
            if d.mine(i): behaviour(d, b, samp)
    for _ in range(d.a.count): random_job(d, samp)


run('contact', main)
