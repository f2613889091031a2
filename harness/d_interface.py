"""Interface searches and contact angles of maps with the library functions."""
import itertools
import numpy as np
from vlib import *
from droplets.flow import FlowData
from droplets.interface import get_contact_angle, get_interface

CS = 16000


def flow_of(g, v, order=None, labels=('X', 'Y'), name='M', info=True, extra=True):
    X, Y = g.coords()
    order = list(range(g.nx * g.ny)) if order is None else order
    cols = [(labels[0], X[order]), (labels[1], Y[order]), (name, np.array(v, float)[order])]
    if extra:
        cols.append(('Z', np.arange(len(order), dtype=float)[order]))
        if name != 'M': cols.append(('M', ((np.arange(len(order)) * 7) % 5).astype(float)))
    kw = dict(info=dict(shape=(g.nx, g.ny), spacing=(g.dx, g.dy), origin=(g.x0, g.y0), num_bins=g.nx * g.ny)) if info else {}
    return FlowData(*cols, **kw)


def lim(v, f=1):
    return [0, 0] if v is None else [1, enc(v, CS * f)]


UNITS = [1., 1., 1., 8., 2.**-6, 2.**-20]       # of the values


def search(d, g, v, o, order=None, labels=('X', 'Y'), periodic=False):
    """o: cutoff, radius, cbins, ylims (None: left out)."""
    name = d.rng.choice(['M', 'M', 'M', 'N', 'rho'])
    mu = d.rng.choice(UNITS)
    flow = flow_of(g, [x * mu for x in v], order, labels, name)
    kw = {}
    if o['cutoff'] is not None: kw['cutoff'] = o['cutoff'] * mu
    if o['radius'] is not None: kw['cutoff_radius'] = o['radius']
    if o['cbins'] is not None: kw['cutoff_bins'] = o['cbins']
    if o['ylims'] is not None: kw['ylims'] = o['ylims']
    if labels != ('X', 'Y'): kw['coord_labels'] = labels
    if periodic: kw['search_longest_connected'] = True
    before = flow.data.tobytes()
    res, exc = call(lambda: list(get_interface(flow, name, **kw)))
    rows = []
    for pair in res or []:
        try:
            l, r = pair
            cells = []
            for q in (l, r):
                b = flow.data[int(q)]
                cells += [enc((b[labels[0]] - g.x0) / g.dx), enc((b[labels[1]] - g.y0) / g.dy)]
            rows.append(cells)                      # col, row, col, row
        except Exception:
            rows.append([BAD] * 4)
    radius = o['radius']
    if radius is None:
        radius = min([g.dx] * (g.nx > 1) + [g.dy] * (g.ny > 1))
    ylo, yhi = o['ylims'] or (None, None)
    d.emit(k='per' if periodic else 'out', g=grid_record(g, CS), v=[int(x) for x in v], exc=exc, res=rows,
           same=int(flow.data.tobytes() == before), lo=lim(ylo), hi=lim(yhi),
           o=dict(cutoff=two(o['cutoff']), cbins=1 if o['cbins'] is None else o['cbins'], radius=enc(radius, CS), unit=250,
                  floor=[0, 0], one=CS))


def ropts(rng, g, vmax, periodic):
    o = {}
    o['cutoff'] = rng.choice([None, None, 1, vmax / 2, vmax, 2.5, 0, vmax + 1])
    o['cutoff'] = near(rng, o['cutoff'])
    o['radius'] = None
    m = min(g.dx, g.dy)
    if rng.random() < .6 or g.nx * g.ny == 1:
        o['radius'] = rng.choice([m, max(g.dx, g.dy), 2 * m, 1.5 * m, .5 * m, g.dx, g.dy, g.dx * 2, 0, g.dx + .125, 1.25 * m])
    if periodic:
        box = g.nx * g.dx
        r = o['radius'] if o['radius'] is not None else min([g.dx] * (g.nx > 1) + [g.dy] * (g.ny > 1))
        if 2 * r >= box:
            o['radius'] = rng.choice([0, .25, .375]) * box
    o['cbins'] = rng.choice([None, 1, 1, 0, 2, 3, 4, 8])
    o['ylims'] = None
    if rng.random() < .4:
        lo = hi = None
        if rng.random() < .6: lo = g.y0 + g.dy * rng.choice([-1, 0, .5, 1, 1.25])
        if rng.random() < .6: hi = g.y0 + g.dy * (g.ny - 1 + rng.choice([1, 0, -.5, -1]))
        o['ylims'] = (lo, hi)
    return o


def rgrid2(rng, periodic):
    dx = rng.choice([.25, .5, 1., .125, .75, 2.])
    dy = dx if rng.random() < .5 else rng.choice([.25, .5, 1., .125, .75, 2.])
    nx, ny = rng.randint(1, 9), rng.randint(1, 6)
    x0 = dx * (rng.randint(-5, 5) + rng.choice([0, .5, .25]))
    if rng.random() < .5: x0 = dx * rng.choice([0, .5])
    return Grid(nx, ny, dx, dy, x0, dy * (rng.randint(-3, 5) + rng.choice([0, .5])))


def rvals(rng, g):
    n = g.nx * g.ny
    r = rng.random()
    vmax = rng.choice([1, 2, 9])
    if r < .35:
        p = rng.choice([.3, .5, .7, .9])
        v = [rng.randint(1, vmax) if rng.random() < p else 0 for _ in range(n)]
    elif r < .45:
        v = [rng.choice([0, vmax])] * n
    else:                                   # a droplet, possibly through the boundary, with noise
        v = [0] * n
        for j in range(g.ny):
            a, w = rng.randint(0, g.nx - 1), rng.randint(0, g.nx)
            for q in range(w):
                v[((a + q) % g.nx) * g.ny + j] = vmax
        for k in range(n):
            if rng.random() < .15: v[k] = rng.randint(0, vmax)
    if rng.random() < .15:                  # also negative
        s = rng.choice([1, vmax, vmax + 2])
        return [x - s for x in v], vmax - s
    return v, vmax


def angle(d):
    rng = d.rng
    while True:
        g = rgrid2(rng, False)
        if g.nx * g.ny > 1: break
    v, vmax = rvals(rng, g)
    o = ropts(rng, g, vmax, False)
    floor = None if rng.random() < .4 else g.y0 + g.dy * rng.choice([-1, 0, 1, .25, .75, 1.75, 2])
    height = g.dy * rng.choice([.5, 1, 1.5, 2, 3, 10])
    order = list(range(g.nx * g.ny))
    if rng.random() < .4: rng.shuffle(order)
    labels = ('X', 'Y') if rng.random() < .8 else ('a', 'b')
    name = rng.choice(['M', 'M', 'M', 'N', 'rho'])
    mu = d.rng.choice(UNITS)
    flow = flow_of(g, [x * mu for x in v], order, labels, name)
    kw = {}
    if o['cutoff'] is not None: kw['cutoff'] = o['cutoff'] * mu
    if o['radius'] is not None: kw['cutoff_radius'] = o['radius']
    if o['cbins'] is not None: kw['cutoff_bins'] = o['cbins']
    if floor is not None: kw['floor'] = floor
    if labels != ('X', 'Y'): kw['coord_labels'] = labels
    res, exc = call(get_contact_angle, flow, height, name, **kw)
    ang = []
    try:
        for a in res:
            if a is None:
                ang.append([0, 0, 0])
            else:
                a = float(a)
                ang.append([1, enc(math.cos(math.radians(a)), 20000), enc(math.sin(math.radians(a)), 20000)]
                           if 0 <= a <= 180 else [1, BAD, BAD])
    except Exception:
        ang = []
    radius = o['radius']
    if radius is None:
        radius = min([g.dx] * (g.nx > 1) + [g.dy] * (g.ny > 1))
    d.emit(k='angle', g=grid_record(g, CS), v=[int(x) for x in v], exc=exc, res=ang, height=enc(height, CS), floor=lim(floor),
           o=dict(cutoff=two(o['cutoff']), cbins=1 if o['cbins'] is None else o['cbins'], radius=enc(radius, CS), unit=250,
                  floor=[0, 0], one=CS))


def main(d):
    rng = d.rng
    per = d.a.prop == 'P13'
    if d.a.prop == 'P25':
        for _ in range(d.a.count):
            angle(d)
        return
    # every small layer, and every small map
    k = 0
    top = 11 if d.thorough else 7
    for nx in range(1, top + 1):
        for bits in itertools.product((0, 1), repeat=nx):
            k += 1
            if d.mine(k):
                g = Grid(nx, 1, 1., 1., rng.choice([.5, 0., -2., 3.5]), .5)
                cb = rng.choice([0, 0, 1]) if nx > 2 else 0
                search(d, g, bits, dict(cutoff=1, radius=1. if nx > 2 else .25, cbins=cb, ylims=None), periodic=per)
    for nx, ny in ((3, 2), (2, 3), (3, 3)) + (((4, 3), (5, 2)) if d.thorough else ()):
        if per and nx < 3: continue
        for bits in itertools.product((0, 1), repeat=nx * ny):
            k += 1
            if d.mine(k) and (d.thorough or nx * ny < 9 or k % 3 == d.a.seed % 3):
                g = Grid(nx, ny, 1., 1., .5, .5)
                search(d, g, bits, dict(cutoff=rng.choice([1, None]), radius=rng.choice([1., 1.25]), cbins=rng.choice([1, 2]), ylims=None), periodic=per)
    for _ in range(d.a.count):
        g = rgrid2(rng, per)
        v, vmax = rvals(rng, g)
        o = ropts(rng, g, vmax, per)
        order = list(range(g.nx * g.ny))
        r = rng.random()
        if r < .4: rng.shuffle(order)
        elif r < .7: order.sort(key=lambda q: (q % g.ny, q // g.ny))
        labels = ('X', 'Y') if rng.random() < .8 else rng.choice([('a', 'b'), ('Y', 'X')])
        search(d, g, v, o, order, labels, per)


run('interface', main)
