"""Sampling from maps: angular profiles, dissipation, and time series."""
import os
import numpy as np
from vlib import *
from droplets.flow import FlowData
from droplets.sample import (sample_center_of_mass, sample_flow_angle, sample_inertial_energy, sample_per_angle_from,
                             sample_viscous_dissipation)

VS = 1000
LABELS = ['M', 'N', 'T', 'U', 'V']


def per_angle(d):
    rng = d.rng
    u = rng.choice([1., .5, .25])
    n = rng.choice([1, 3, 8, 20, 60])
    ox, oy = rng.randint(-4, 4), rng.randint(-4, 4)
    span = rng.choice([1, 3, 10])
    full = [(x, y) for x in range(ox - span, ox + span + 1) for y in range(oy - span, oy + span + 1)]
    pts = full if rng.random() < .3 and span < 10 else [(rng.randint(ox - span, ox + span), rng.randint(oy - span, oy + span)) for _ in range(n)]
    if rng.random() < .5: rng.shuffle(pts)
    v = [rng.randint(-9, 9) for _ in pts]
    w = [rng.choice([0, 0, 1, 2, 5]) for _ in pts]
    labels = ('X', 'Y') if rng.random() < .8 else ('q', 'Y')
    flow = FlowData((labels[0], np.array([p[0] * u for p in pts])), (labels[1], np.array([p[1] * u for p in pts])),
                    ('C', np.array(v, float)), ('W', np.array(w, float)))
    size = rng.choice([.5, 1, 2, 3, 5, 7, 10, 15, 30, 45, 45, 60, 90, 90, 120, 180, 360])
    kw = dict(size=size) if size != 1 or rng.random() < .5 else {}
    amin, amax = 0, 720
    if rng.random() < .4 and size < 180:
        k = int(360 / size)
        lo = rng.randint(0, k - 1)
        hi = rng.randint(lo, k - 1)
        amin = int(2 * lo * size)
        if rng.random() < .5: amin = min(amin + 1, 720 - int(2 * size))
        amax = amin + int(2 * size) * rng.randint(1, max(1, (720 - amin) // int(2 * size)))
        kw.update(amin=amin / 2, amax=amax / 2 - size)
    weighted = rng.random() < .5
    if weighted: kw['weight'] = 'W'
    rmin, rmax = 0, None
    if rng.random() < .4:
        rmin = rng.choice([0, 1, 2, 5]); kw['rmin'] = rmin * u
    if rng.random() < .4:
        rmax = rng.choice([1, 3, 5, 10]); kw['rmax'] = rmax * u
    if labels != ('X', 'Y'): kw['coord_labels'] = labels
    before = flow.data.tobytes()
    res, exc = call(sample_per_angle_from, flow, (ox * u, oy * u), 'C', **kw)
    out = []
    try:
        out = [[enc(r['angle'], 2), enc(r['C'], VS)] for r in res]
    except Exception:
        pass
    d.emit(k='angle', bins=[dict(x=p[0] - ox, y=p[1] - oy, v=a, w=b) for p, a, b in zip(pts, v, w)], amin=amin, amax=amax,
           size=int(2 * size), weighted=int(weighted), r2min=rmin * rmin, r2max=[0, 0] if rmax is None else [1, rmax * rmax],
           exc=exc, out=out, same=int(flow.data.tobytes() == before))


def dissipation(d):
    rng = d.rng
    dx, dy = rng.choice([.25, .5, 1., 2.]), rng.choice([.25, .5, 1., 2.])
    nx, ny = rng.randint(3, 6), rng.randint(3, 6)
    g = Grid(nx, ny, dx, dy, dx * rng.randint(-4, 4), dy * (rng.randint(-4, 4) + .5))
    weighted = rng.random() < .3
    m = 3 if weighted else 9
    shift = rng.choice([0, 0, 5])
    U = [rng.randint(-m, m) + shift for _ in range(nx * ny)]
    V = [rng.randint(-m, m) for _ in range(nx * ny)]
    if rng.random() < .2: U = [3 * (k // ny) - 2 * (k % ny) for k in range(nx * ny)]
    W = [rng.choice([1, 1, 2, 3]) for _ in range(nx * ny)] if weighted else [1] * (nx * ny)
    X, Y = g.coords()
    order = list(range(nx * ny))
    r = rng.random()
    if r < .4: rng.shuffle(order)
    elif r < .7: order.sort(key=lambda q: (q % ny, q // ny))
    cl, fl = ('X', 'Y'), ('U', 'V')
    if rng.random() < .25: cl, fl = ('a', 'b'), ('f', 'g')
    cols = [(fl[0], np.array(U, float)[order]), (cl[0], X[order]), (cl[1], Y[order]), (fl[1], np.array(V, float)[order]),
            ('W', np.array(W, float)[order])]
    if rng.random() < .5: rng.shuffle(cols)
    flow = FlowData(*cols, info=dict(shape=(nx, ny), spacing=(dx, dy), origin=(g.x0, g.y0), num_bins=nx * ny))
    visc = rng.choice([1., 2., .5, 8.77e-4])
    kw = {}
    if cl != ('X', 'Y'): kw.update(coord_labels=cl, flow_labels=fl)
    if weighted: kw['weight_label'] = 'W'
    res, exc = call(sample_viscous_dissipation, flow, visc, **kw)
    out = []
    try:
        vals = np.ravel(res)
        assert len(vals) == len(flow.data)
        for b, x in zip(flow.data, vals):         # belongs to the bin at the same place of the (sorted) data
            out.append([enc((b[cl[0]] - g.x0) / dx), enc((b[cl[1]] - g.y0) / dy), enc(48 * x / visc)])
    except Exception:
        pass
    rows = []
    try:
        rows = [[enc((b[cl[0]] - g.x0) / dx), enc((b[cl[1]] - g.y0) / dy), enc(b[fl[0]]), enc(b[fl[1]]), enc(b['W'])] for b in flow.data]
    except Exception:
        pass
    d.emit(k='diss', nx=nx, ny=ny, kx=int(2 / dx), ky=int(2 / dy), U=U, V=V, W=W, exc=exc, out=out, rows=rows)


def helpers(d):
    """Centre of mass, inertial energy and flow angle of a map."""
    rng = d.rng
    g = rgrid(rng, 1, 5)
    data = rdata(rng, g, rng.choice([0, .3, .8]))
    names = dict(X='X', Y='Y', M='M', U='U', V='V')
    kc, ke, ka = {}, {}, {}
    if rng.random() < .3:
        names = dict(X='a', Y='b', M='m', U='f', V='g')
        kc = dict(mass_label='m', coord_labels=['a', 'b']); ke = dict(mass_label='m', flow_labels=['f', 'g']); ka = dict(flow_labels=['f', 'g'])
    flow = FlowData(*[(names[l], data[l]) for l in names])
    before = flow.data.tobytes()
    com, e1 = call(sample_center_of_mass, flow, **kc)
    en, e2 = call(sample_inertial_energy, flow, **ke)
    an, e3 = call(sample_flow_angle, flow, **ka)
    mu, e4 = call(sample_flow_angle, flow, mean=True, **ka)
    mw, e5 = call(sample_flow_angle, flow, mean=True, weight=names['M'], **ka)
    def dirs(a):
        return [[enc(math.cos(math.radians(x)), 20000), enc(math.sin(math.radians(x)), 20000)] for x in np.ravel(a)] if a is not None else []
    d.emit(k='helpers', g=grid_record(g, 16), rows=data_rows(data), com=encs(com, 16 * 100) if com is not None else [], exc=[e1, e2, e3, e4, e5],
           energy=encs(en, 2) if en is not None else [], angles=dirs(an), mean=dirs(mu), wmean=dirs(mw), same=int(flow.data.tobytes() == before))


def main(d):
    for _ in range(d.a.count):
        if d.a.prop == 'P22':
            per_angle(d)
        elif d.a.prop == 'P28':
            dissipation(d)
        else:
            helpers(d)


run('sample', main)
