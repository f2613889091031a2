"""Downsample and supersample flow data with the library functions."""
import numpy as np
from vlib import *
from droplets.flow import FlowData
from droplets.average import average_data, average_flow_data
from droplets.resample import downsample_flow_data, supersample_flow_data

CS, VS = 15840, 1000            # divisible by the factors of supersampling
LABELS = ['M', 'N', 'T', 'U', 'V']
SP = [.25, .5, 1., .75, 1.5, .1, .3, .7, 120 / 15840., 36 / 15840.]


un = {l: 1. for l in LABELS}     # units of the fields


def state(flow):
    return (flow.data.tobytes(), flow.data.dtype.descr, flow.shape, flow.spacing, flow.origin, flow.num_bins)


def result(flow, xl, yl):
    r = dict(nx=BAD, ny=BAD, x0=BAD, y0=BAD, dx=BAD, dy=BAD, nb=BAD, bins=[])
    try:
        r.update(nx=enc(flow.shape[0]), ny=enc(flow.shape[1]), dx=enc(flow.spacing[0], CS), dy=enc(flow.spacing[1], CS),
                 x0=enc(flow.origin[0], CS), y0=enc(flow.origin[1], CS), nb=enc(flow.num_bins))
        for b in flow.data:
            r['bins'].append(dict(x=enc(b[xl], CS), y=enc(b[yl], CS), v=[enc(b[l] / un[l], VS) for l in LABELS]))
    except Exception:
        r['nb'] = BAD
    return r


def one(d, what):
    rng = d.rng
    dx, dy = rng.choice(SP), rng.choice(SP)
    n = 8 if what == 'down' else 5
    g = Grid(rng.randint(1, n), rng.randint(1, n), dx, dy, dx * (rng.randint(-4, 4) + rng.choice([0, .5])), dy * (rng.randint(-2, 4) + rng.choice([0, .5])))
    data = rdata(rng, g, rng.choice([0, .3, .7]))
    if rng.random() < .4:            # values without weight
        for k in range(len(data['M'])):
            if rng.random() < .3: data['M'][k] = 0
            if rng.random() < .3: data['N'][k] = 0
    xl, yl = ('X', 'Y') if rng.random() < .75 else rng.choice([('a', 'b'), ('Y', 'X'), ('q', 'Y')])
    order = list(range(g.nx * g.ny))
    r = rng.random()
    if r < .3: rng.shuffle(order)
    elif r < .7: order.sort(key=lambda k: (k % g.ny, k // g.ny))
    cols = {xl: data['X'][order], yl: data['Y'][order]}
    un.update(units(rng, 'tiny'))
    for l in LABELS: cols[l] = data[l][order] * un[l]
    names = list(cols)
    if rng.random() < .5: rng.shuffle(names)
    # any origin can be set: resampling goes by the coordinates
    info = dict(shape=(g.nx, g.ny), spacing=(g.dx, g.dy), num_bins=g.nx * g.ny,
                origin=rng.choice([(g.x0, g.y0), g.corner, (5., -7.)]))
    flow = FlowData(*[(l, cols[l]) for l in names], info=info)
    weights = rng.choice([[], [('U', 'M')], [('U', 'M'), ('V', 'M'), ('T', 'N')], [('U', 'M'), ('V', 'M'), ('T', 'N')],
                          [('T', 'N'), ('V', 'N')], [('V', 'M'), ('U', 'N')]])
    w = [0] * 5
    for a, b in weights: w[LABELS.index(a)] = LABELS.index(b) + 1
    kw = {}
    if weights or rng.random() < .5: kw['weights'] = weights
    if (xl, yl) != ('X', 'Y'): kw['coord_labels'] = (xl, yl)
    ev = dict(g=grid_record(g, CS), rows=data_rows(data), w=w)
    before = state(flow)
    if what == 'down':
        lims = []
        for a0, dd, m in ((g.x0, g.dx, g.nx), (g.y0, g.dy, g.ny)):
            lo = hi = None
            if rng.random() < .35: lo = a0 + dd * (rng.randint(0, m // 2) + rng.choice([0, 0, .5, -.25, -2]))
            if rng.random() < .35: hi = a0 + dd * (rng.randint(m // 2, m - 1) + rng.choice([0, 0, .5, -.25, 2]))
            lims.append((near(rng, lo, 1 / 128), near(rng, hi, 1 / 128)))
        if lims[0] != (None, None) or rng.random() < .3: kw['xlim'] = lims[0]
        if lims[1] != (None, None) or rng.random() < .3: kw['ylim'] = lims[1]
        nc = (rng.randint(1, 4), rng.randint(1, 4))
        res, exc = call(downsample_flow_data, flow, nc, **kw)
        ev.update(k='down', n=list(nc), lim=[[0, 0] if v is None else [1, enc(v, CS)] for p in lims for v in p], f=0)
    else:
        f = rng.choice([1, 2, 2, 3, 4])
        if f == 1: flow.origin = (g.x0, g.y0); before = state(flow)      # returned as it is
        res, exc = call(supersample_flow_data, flow, f, **kw)
        ev.update(k='super', n=[0, 0], lim=[], f=f)
    if exc == '' and res is not None and len(order) > 0:
        # writing to the result must not reach the input either
        same = int(state(flow) == before)
        ev['res'] = result(res, xl, yl)
        try:
            for l in LABELS + [xl, yl]:
                res.data[l] = 77
        except Exception:
            pass
        same = int(same and state(flow) == before)
    else:
        same = int(state(flow) == before)
        ev['res'] = result(None, xl, yl)
    ev.update(exc=exc, same=same)
    d.emit(**ev)


def average(d):
    """Average flow data objects with different extents on aligned grids."""
    rng = d.rng
    dx, dy = rng.choice(SP), rng.choice(SP)
    ax, ay = dx * (rng.randint(-6, 6) + rng.choice([0, .5])), dy * (rng.randint(-4, 6) + rng.choice([0, .5]))
    n = rng.randint(1, 5)
    xl, yl = ('X', 'Y') if rng.random() < .75 else rng.choice([('a', 'b'), ('Y', 'X')])
    weights = rng.choice([[], [('U', 'M')], [('U', 'M'), ('V', 'M'), ('T', 'N')], [('U', 'M'), ('V', 'M'), ('T', 'N')],
                          [('T', 'N'), ('V', 'N')], [('V', 'M'), ('U', 'N')]])
    w = [0] * 5
    for a, b in weights: w[LABELS.index(a)] = LABELS.index(b) + 1
    names = [xl, yl] + LABELS
    rng.shuffle(names)
    same_grid = rng.random() < .25
    flows, maps = [], []
    un.update(units(rng, 'tiny'))
    spread = rng.choice([0, 1, 3])
    for k in range(n):
        if k == 0 or not same_grid:
            i0, j0, nx, ny = rng.randint(-spread, spread), rng.randint(-spread, spread), rng.randint(1, rng.choice([4, 4, 4, 4, 12])), rng.randint(1, rng.choice([4, 4, 4, 4, 12]))
        empty = rng.random() < .15 and n > 1
        if empty:
            nxe = nye = 0
        # coordinates which are the same but for the last digits
        x = np.array([ax + dx * (i0 + i) for i in range(nx)]); y = np.array([ay + dy * (j0 + j) for j in range(ny)])
        if rng.random() < .3: x = x[0] + dx * np.arange(nx); y = y[0] + dy * np.arange(ny)
        g = Grid(nx, ny, dx, dy, x[0], y[0])
        data = rdata(rng, g, rng.choice([0, .3, .7]))
        for q in range(nx * ny):
            if rng.random() < .2: data['M'][q] = 0
            if rng.random() < .2: data['N'][q] = 0
        order = sorted(range(nx * ny), key=lambda q: (q % ny, q // ny))
        Y, X = np.meshgrid(y, x, indexing='ij')
        cols = {xl: X.ravel(), yl: Y.ravel()}
        for l in LABELS: cols[l] = data[l][order] * un[l]
        if empty:
            cols = {l: v[:0] for l, v in cols.items()}
        info = dict(shape=(0, 0) if empty else (nx, ny), spacing=(dx, dy), num_bins=0 if empty else nx * ny)
        if rng.random() < .7: info['origin'] = (g.x0, g.y0) if rng.random() < .7 else (3., -9.)
        flows.append(FlowData(*[(l, cols[l]) for l in names], info=info))
        maps.append(dict(nx=0, ny=0, x0=0, y0=0, dx=0, dy=0, r=[]) if empty
                    else dict(grid_record(g, CS), r=data_rows(data)))
    odd = ''
    r = rng.random()
    if r < .06 and n > 1:
        odd = 'spacing'
        q = rng.randrange(n)
        flows[q].spacing = (dx * rng.choice([1, 2]), dy * .5)
    elif r < .09:
        odd = 'nospacing'
        for f in flows: f.spacing = None
    elif r < .12:
        odd, flows, maps = 'none', [], []
    excl = rng.random() < .5
    kw = {}
    if excl or rng.random() < .5: kw['exclude_empty_sets'] = excl
    if weights or rng.random() < .5: kw['weights'] = weights
    if (xl, yl) != ('X', 'Y'): kw['coord_labels'] = (xl, yl)
    before = [state(f) for f in flows]
    res, exc = call(average_flow_data, flows, **kw)
    same = [state(f) for f in flows] == before
    ev = dict(k='avg', maps=maps, w=w, excl=int(excl), odd=odd, exc=exc, res=result(res, xl, yl), dx=enc(dx, CS), dy=enc(dy, CS))
    try:
        for l in names: res.data[l] = 77
    except Exception:
        pass
    ev['same'] = int(same and [state(f) for f in flows] == before)
    d.emit(**ev)


def means(d):
    """Average records on one grid, in any order of bins, or refuse those that are not."""
    rng = d.rng
    dx, dy = rng.choice(SP), rng.choice(SP)
    g = Grid(rng.randint(1, 4), rng.randint(1, 4), dx, dy, dx * rng.randint(-6, 6), dy * rng.randint(-4, 6))
    n = rng.choice([0, 1, 2, 2, 3, 5])
    xl, yl = ('X', 'Y') if rng.random() < .75 else rng.choice([('a', 'b'), ('Y', 'X')])
    weights = rng.choice([[], [('U', 'M')], [('U', 'M'), ('V', 'M'), ('T', 'N')], [('V', 'N'), ('T', 'N')]])
    w = [0] * 5
    for a, b in weights: w[LABELS.index(a)] = LABELS.index(b) + 1
    names = [xl, yl] + LABELS
    rng.shuffle(names)
    order = list(range(g.nx * g.ny))
    if rng.random() < .5: rng.shuffle(order)
    X, Y = g.coords()
    recs, rows = [], []
    un.update(units(rng, 'tiny'))
    odd = rng.choice(['', '', '', '', 'x', 'y', 'size', 'order']) if n > 1 else ''
    which = rng.randrange(1, n) if n > 1 else 0
    for k in range(n):
        data = rdata(rng, g, rng.choice([0, .3, .7]))
        o = list(order)
        cols = {xl: X[o], yl: Y[o]}
        for l in LABELS: cols[l] = data[l][o]
        if k == which and odd:
            q = rng.randrange(len(o))
            if odd == 'x': cols[xl][q] += rng.choice([-1, 1, .5]) * max(dx, .5)
            if odd == 'y': cols[yl][q] += rng.choice([-1, 1, .5]) * max(dy, .5)
            if odd == 'size': cols = {l: np.append(v, v[-1]) for l, v in cols.items()}
            if odd == 'order' and len(o) > 1 and min(dx, dy) > .2: cols = {l: v[::-1] for l, v in cols.items()}
            elif odd == 'order': odd = ''
        if rng.random() < .3: cols[xl] = cols[xl] * (1 + 1e-9)
        recs.append(FlowData(*[(l, cols[l] * un.get(l, 1.)) for l in names]).data)
        rows.append([[int(cols[l][q]) for l in LABELS] for q in range(len(o))])
    kw = {}
    if weights or rng.random() < .5: kw['weights'] = weights
    if (xl, yl) != ('X', 'Y'): kw['coord_labels'] = (xl, yl)
    before = [r.tobytes() for r in recs]
    res, exc = call(average_data, recs, **kw)
    ev = dict(k='mean', n=n, rows=rows, w=w, odd=odd, x=encs(X[order], CS), y=encs(Y[order], CS), res=dict(x=[], y=[], v=[]), exc=exc)
    if exc == '':
        try:
            if n == 0: ev['res']['x'] = [0] * np.size(res)
            else: ev['res'] = dict(x=encs(res[xl], CS), y=encs(res[yl], CS), v=[encs(v, 1000) for v in zip(*[res[l] / un[l] for l in LABELS])])
        except Exception as e:
            ev['exc'] = type(e).__name__
    ev['same'] = int([r.tobytes() for r in recs] == before)
    d.emit(**ev)


def main(d):
    for _ in range(d.a.count):
        if d.a.prop == 'P11':
            (means if d.rng.random() < .2 else average)(d)
        else:
            one(d, 'down' if d.a.prop == 'P08' else 'super')


run('resample', main)
