"""Run averaging jobs (strata average) and record their outputs."""
import os
import numpy as np
from vlib import *
from strata.average import average, recenter_maps

CS = 16000
VS = 1000


def lim(v):
    return [0, 0] if v is None else [1, enc(v, CS)]


def one(d, prop):
    rng = d.rng
    feat = {'P04': 'plain', 'P05': 'recenter', 'P06': 'combine', 'P07': 'super'}[prop]
    small = feat in ('super', 'recenter')
    g = rgrid(rng, 1, 5 if small else 7)
    if feat == 'recenter':
        g = Grid(rng.choice([1] + 2 * [2, 3, 4, 5, 6, 7]), rng.randint(1, 4), rng.choice([.25, .5, 1., .125]), rng.choice([.25, .5, 1.]), g.x0, g.y0)
    fmt = rng.choice(['gmx', 'gmx', 'gmx', 'simple', 'simple_plain'])
    if fmt != 'gmx' and (g.nx < 2 or g.ny < 2):
        fmt = 'gmx'
    nf = rng.randint(1, 7)
    group = rng.randint(1, min(4, nf + 1))
    if rng.random() < .06 and g.nx * g.ny <= 16:
        nf = rng.randint(8, 14)
        group = rng.randint(4, nf)
    rolling = rng.random() < .35
    begin = rng.choice([1, 1, 1, 0, 2, 3, 7, 10, 99998])
    zero = rng.choice([0.0, .2, .5, .8])
    maps, grids = [], [g]
    kw = dict(group=group, rolling=rolling)
    xl, yl = [None, None], [None, None]
    if rng.random() < (.35 if feat in ('plain', 'recenter') else .15):
        # limits on, between, and outside of the bin centres
        def one_lim(a0, dd, n, hi):
            i = rng.randint(0, n - 1)
            return near(rng, a0 + dd * i + rng.choice([0, 0, 0, .25 * dd, -.25 * dd, (3 * dd if hi else -3 * dd)]), 1 / 128)
        if rng.random() < .25:
            # only a limit at zero
            g.x0, g.y0 = -g.dx * rng.randint(0, g.nx - 1) + rng.choice([0, .125]), -g.dy * rng.randint(0, g.ny - 1) + rng.choice([0, .125])
            l, q = rng.choice([(xl, 0), (xl, 1), (yl, 0), (yl, 1)])
            if (l is xl and g.x0 + g.dx * (g.nx - 1) < 0) or (l is yl and g.y0 + g.dy * (g.ny - 1) < 0): q = 1
            if (l is xl and g.x0 > 0) or (l is yl and g.y0 > 0): q = 0
            l[q] = rng.choice([0, 0., -0.])
            one_lim = lambda *a: None
        if rng.random() < .6 and xl[0] is None: xl[0] = one_lim(g.x0, g.dx, (g.nx + 1) // 2, False)
        if rng.random() < .6 and xl[1] is None: xl[1] = one_lim(g.x0 + g.dx * (g.nx // 2), g.dx, g.nx - g.nx // 2, True)
        if rng.random() < .6 and yl[0] is None: yl[0] = one_lim(g.y0, g.dy, (g.ny + 1) // 2, False)
        if rng.random() < .6 and yl[1] is None: yl[1] = one_lim(g.y0 + g.dy * (g.ny // 2), g.dy, g.ny - g.ny // 2, True)
        if (xl != [None, None] or yl != [None, None]) and rng.random() < .15:
            # the same limits along both
            g.y0 = g.x0
            xl[:] = [rng.choice([None, g.x0 - rng.choice([0, .25]) * g.dx]), near(rng, g.x0 + min(g.dx, g.dy) * rng.choice([.5, 1, 1.25, 2]), 1 / 128)]
            yl[:] = xl
    comb = [0, 0]
    if feat == 'combine' or (feat != 'super' and rng.random() < .1):
        comb = [rng.randint(1, g.nx), rng.randint(1, g.ny)] if rng.random() < .8 else [rng.randint(1, max(1, g.nx // 2)), 1]
        if feat != 'combine':
            comb = [1, 1]
        if (xl, yl) != ([None, None], [None, None]):
            comb = [1, 1]
    sup = 0
    if feat == 'super':
        sup = rng.choice([1, 2, 2, 3, 4])
    rec = ''
    if feat == 'recenter':
        rec = rng.choice(['com', 'left', 'right'])
        if comb != [1, 1]:
            comb = [0, 0]
    via = 'lib' if rng.random() < .5 else 'cli'
    floor = cutoff = None
    cbins, radius = 1, 1.0
    if rec in ('left', 'right'):
        zero = rng.choice([.2, .5])
        cutoff = near(rng, rng.choice([None, 1, 2.5, 4, 0]))
        if rng.random() < .5:
            floor = near(rng, g.y0 + g.dy * rng.choice([-1, -.5, 0, .5, 1, 1.5]), 1 / 128)
        cbins = rng.choice([1, 1, 0, 2, 3])
        radius = rng.choice([1.0, .5, .75, 1.5, .25])
    if via == 'cli':
        cutoff = 0 if cutoff is None else cutoff
    mism = feat == 'plain' and rng.random() < .12 and nf > 1
    allg = [g] * nf
    if mism:
        q = rng.randint(1, nf - 1)
        h = Grid(g.nx, g.ny, g.dx, g.dy, g.x0, g.y0)
        r = rng.random()
        if r < .3: h.x0 += g.dx
        elif r < .6: h.y0 -= rng.choice([.125, g.dy])
        elif r < .8: h.nx += 1
        else: h.ny += 1
        allg = [h if k == q else g for k in range(nf)]
        grids = allg
        fmt = 'gmx'
    dirn = d.tmp()
    base = os.path.join(dirn, rng.choice(['in_', 'a', 'dens.x']))
    out = os.path.join(dirn, rng.choice(['out_', 'sub/b', 'o']))
    ext = rng.choice(['.dat', '.dat', '.map', ''])
    datas = []
    un = units(rng, 'tiny' if fmt != 'simple_plain' else True)
    blank = feat == 'plain' and rng.random() < .15
    for k in range(nf):
        dat = rdata(rng, allg[k], zero)
        if rec == 'com' or (not blank and dat['M'].sum() == 0):
            # a single blob of mass somewhere, to have varied centres
            i = rng.randrange(len(dat['M']))
            dat['M'][i] = 9 if rec != 'com' else 40
            dat['N'][i] = 3
            dat['U'][i] = 2
        if rec in ('left', 'right'):
            # a droplet-like stretch, shifted between the files
            s = rng.randint(0, max(0, allg[k].nx - 2))
            w = rng.randint(1, allg[k].nx)
            for i in range(allg[k].nx):
                for j in range(allg[k].ny):
                    if s <= i < s + w:
                        q = i * allg[k].ny + j
                        dat['M'][q] = rng.randint(4, 9); dat['N'][q] = rng.randint(1, 5)
                        dat['T'][q] = rng.randint(0, 9); dat['U'][q] = rng.randint(-9, 9); dat['V'][q] = rng.randint(-9, 9)
        if fmt != 'gmx' and rng.random() < .5:
            # in the simple formats values can be present without weight
            for q in range(len(dat['M'])):
                if rng.random() < .2:
                    dat['M'][q] = 0
                if rng.random() < .2:
                    dat['N'][q] = 0; dat['T'][q] = rng.randint(0, 9)
        datas.append(dat)
        write_map('%s%05d%s' % (base, begin + k, ext), allg[k], in_units(dat, un), fmt)
    end = None
    used = nf
    if rng.random() < .2:
        used = rng.randint(1, nf)
        end = begin + used - 1
    if via == 'lib':
        kw = dict(rolling=rolling, begin=begin, ext=ext, quiet=rng.random() < .5)
        if end is not None: kw['end'] = end
        if comb != [0, 0]: kw['combine'] = tuple(comb)
        if sup: kw['supersample'] = sup
        if rec: kw['recenter'] = rec
        if xl != [None, None]: kw['xlim'] = tuple(xl)
        if yl != [None, None]: kw['ylim'] = tuple(yl)
        if rec in ('left', 'right'):
            kw.update(floor=floor, cutoff=None if cutoff is None else cutoff * un['M'], cutoff_bins=cbins, cutoff_radius=radius)
        _, exc = call(average, base, out, group, **kw)
    else:
        a = ['average', base, out, group, '-b', begin, '--ext', ext]
        if end is not None: a += ['-e', end]
        if rolling: a += ['--rolling']
        if comb != [0, 0]: a += ['--combine'] + comb
        if sup: a += ['--supersample', sup]
        if rec: a += ['--recenter', rec]
        if xl != [None, None]: a += ['--xlim'] + xl
        if yl != [None, None]: a += ['--ylim'] + yl
        if rec in ('left', 'right'):
            if floor is not None: a += ['--floor', floor]
            a += ['-co', cutoff * un['M'], '-cb', cbins, '-cr', radius]
        _, exc = cli(*a)
    outs = []
    first = begin if rolling else -(-begin // group)
    while os.path.exists('%s%05d%s' % (out, first + len(outs), ext)):
        outs.append(map_record('%s%05d%s' % (out, first + len(outs), ext), CS, VS, un))
    d.drop(dirn)
    grec = [grid_record(h, CS) for h in (grids[:used] if len(grids) > 1 else grids)]
    if len(grids) > 1 and len(grec) == 1:
        pass
    d.emit(k='job', via=via, fmt=fmt, exc=exc, grids=grec, maps=[data_rows(x) for x in datas[:used]], out=outs,
           o=dict(group=group, rolling=int(rolling), lim=[lim(xl[0]), lim(xl[1]), lim(yl[0]), lim(yl[1])], recenter=rec,
                  combine=comb, super=max(1, sup), floor=lim(floor), cutoff=two(cutoff),
                  cbins=cbins, radius=enc(radius, CS), unit=2000, one=CS))


def returned(m, g):
    """A map returned by the recentring, in the form of map_record."""
    r = {'nx': 0, 'ny': 0, 'x0': 0, 'y0': 0, 'dx': enc(g.dx, CS), 'dy': enc(g.dy, CS), 'num': 0, 'rows': [], 'odd': ''}
    try:
        keys = sorted((enc(x, CS // 4), enc(y, CS // 4), k) for k, (x, y) in enumerate(zip(m['X'], m['Y'])))
        order = [k for _, _, k in keys]
        r.update(nx=len({a for a, _, _ in keys}), ny=len({b for _, b, _ in keys}), num=len(keys),
                 x0=enc(np.min(m['X']), CS), y0=enc(np.min(m['Y']), CS),
                 rows=[[enc(m[l][k], VS) for l in ('M', 'N', 'T', 'U', 'V')] for k in order])
        for (a, b, k), q in zip(keys, range(len(keys))):
            i, j = divmod(q, r['ny'])
            if abs(m['X'][k] - (np.min(m['X']) + i * g.dx)) > 1e-3 * g.dx or abs(m['Y'][k] - (np.min(m['Y']) + j * g.dy)) > 1e-3 * g.dy:
                r['odd'] = 'grid'
    except Exception as e:
        r['odd'] = 'unreadable:' + type(e).__name__
    return r


def recentred(d):
    rng = d.rng
    g = Grid(rng.randint(1, 12), rng.randint(1, 4), rng.choice([.1, .3, .7, .25, 1., .35]), rng.choice([.1, .2, .5, 1.]), 0, 0)
    g.x0, g.y0 = rng.randint(-40, 40) * g.dx + rng.choice([0, .5 * g.dx, .05]), rng.randint(-9, 9) * g.dy + rng.choice([0, .05])
    n = rng.randint(1, 4)
    X, Y = g.coords()
    maps, cols, where = [], [], []
    for _ in range(n):
        v = {l: np.array([rng.randint(1, 9) for _ in X], dtype=float) for l in ('M', 'N', 'T', 'U', 'V')}
        empty = np.array([rng.random() < .2 for _ in X])
        for l in v: v[l][empty] = 0
        maps.append(dict(v, X=X.copy(), Y=Y.copy()))
        c = rng.randint(0, g.nx - 1) if rng.random() < .9 else rng.randint(-3, g.nx + 2)
        cols.append(c)
        where.append(g.x0 + (c + rng.choice([0, 0, .25, -.25, .375, -.4375])) * (g.dx if g.nx > 1 else 1.))
    how = rng.choice(['x', 'x', 'y', 'any'])
    k = np.arange(len(X)).reshape(g.nx, g.ny)
    k = list((k.T if how == 'y' else k).ravel())
    if how == 'any': rng.shuffle(k)
    given = [{l: m[l][k] for l in m} for m in maps]
    before = [{l: m[l].copy() for l in m} for m in given]
    res, exc = call(recenter_maps, given, where if rng.random() < .5 else np.array(where))
    got, info = [], dict(shape=[0, 0], num=0, x0=BAD, y0=BAD, dx=BAD, dy=BAD)
    if not exc:
        try:
            got = [returned(m, g) for m in res[0]]
            i = res[1]
            info = dict(shape=[int(a) for a in i['shape']], num=int(i['num_bins']), x0=enc(i['origin'][0], CS), y0=enc(i['origin'][1], CS),
                        dx=enc(i['spacing'][0], CS), dy=enc(i['spacing'][1], CS))
        except Exception as e:
            exc = 'Encode' + type(e).__name__
    kept = int(all(np.array_equal(a[l], b[l]) for a, b in zip(given, before) for l in b))
    gr = grid_record(g, CS)
    if g.nx == 1: gr['dx'] = CS
    for r in got:
        if g.nx == 1: r['dx'] = CS
    d.emit(k='recentred', exc=exc, g=gr, maps=[data_rows(m) for m in maps], cols=cols, got=got, info=info, kept=kept)


def main(d):
    for _ in range(d.a.count):
        one(d, d.a.prop)
        if d.a.prop == 'P05': recentred(d)


run('average', main)
