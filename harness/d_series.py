"""Sample labels over series of maps (strata sample_average)."""
import os
import numpy as np
from vlib import *
from strata.sample_average import sample_average_files

CS, VS = 16000, 1000
IDX = dict(M=1, N=2, T=3, U=4, V=5)


def lim(v):
    return [0, 0] if v is None else [1, enc(v, CS)]


un = {}            # units of the fields in the present series


def encode(label, x):
    """Observed value: [scaled value], or a direction for angles."""
    if label == 'flow_angle':
        try:
            x = float(x)
            return [enc(math.cos(math.radians(x)), 20000), enc(math.sin(math.radians(x)), 20000)]
        except Exception:
            return [BAD, BAD]
    try: x = float(x)
    except Exception: return [BAD, 0]
    if label == 'visc_diss':
        return [enc(x / un['U']**2, 48), 0]
    return [enc(x / (un['M'] * un['U']**2 if label == 'inertial_energy' else un.get(label, 1.)), VS), 0]


def series(d):
    rng = d.rng
    visc_ok = rng.random() < .4
    slip = rng.choice([True, 'fit']) if rng.random() < .25 else False
    dx, dy = (rng.choice([.25, .5, 1., 2.]), rng.choice([.25, .5, 1., 2.]))
    lo = 3 if visc_ok else 1
    g = Grid(rng.randint(lo, 6), rng.randint(max(lo, 2 if slip else 1), 5), dx, dy, dx * (rng.randint(-3, 3) + .5), dy * (rng.randint(-2, 3) + .5))
    at0 = None
    if rng.random() < .06:
        # only a limit at zero
        i, j = rng.randint(0, g.nx - 1), rng.randint(0, g.ny - 1)
        g.x0, g.y0 = -g.dx * i + rng.choice([0, .125, .25]) * (i > 0), -g.dy * j + rng.choice([0, .125]) * (j > 0)
        q = rng.choice([(0, None), (None, 0.), (0., None)])
        if q[0] is not None and (i == g.nx - 1 and g.x0 + g.dx * i < 0 or g.y0 + g.dy * j < 0): q = (None, 0.)
        at0 = rng.choice([(q, (None, None)), ((None, None), q)])
    fmt = rng.choice(['gmx', 'gmx', 'simple', 'simple_plain'])
    if (g.nx < 2 or g.ny < 2): fmt = 'gmx'
    nf = rng.randint(1, 4)
    dirn = d.tmp()
    base = os.path.join(dirn, rng.choice(['in_', 'x.dat']))
    begin = rng.choice([1, 1, 0, 4, 99999])
    ext = rng.choice(['.dat', '.dat', '.map'])
    maps, slips = [], []
    for k in range(nf):
        dat = rdata(rng, g, rng.choice([0, .3, .6]))
        if slip == 'fit':
            for i in range(g.nx):
                us = rng.sample(range(-9, 10), g.ny)
                if rng.random() < .4: us.sort()
                for j in range(g.ny):
                    q = i * g.ny + j
                    dat['M'][q] = max(1, dat['M'][q])
                    dat['U'][q] = us[j]
        elif slip:
            sl = []
            for i in range(g.nx):
                s, L = rng.choice([1, 2, -1]), rng.randint(-4, 4)
                for j in range(g.ny):
                    q = i * g.ny + j
                    dat['M'][q] = max(1, dat['M'][q])
                    dat['U'][q] = s * (g.y0 + j * g.dy + L)
                sl.append(L)
            slips.append(sl)
        elif fmt != 'gmx' and rng.random() < .5:
            for q in range(len(dat['M'])):
                if rng.random() < .2: dat['M'][q] = 0
        maps.append(dat)
    pool = ['M', 'N', 'T', 'U', 'V', 'inertial_energy', 'flow_angle']
    if visc_ok and not slip: pool += ['visc_diss', 'visc_diss', 'visc_diss']
    if slip: pool = ['M', 'N', 'T', 'V', 'slip_length', 'slip_length'] + (['visc_diss'] if visc_ok and slip == 'fit' else [])
    both = visc_ok and slip == 'fit' and rng.random() < .5       # the one must not disturb the other
    if rng.random() < .05: pool += ['nonsense']
    labels = [rng.choice(pool) for _ in range(rng.randint(1, 5))]
    if both: labels = rng.choice([['visc_diss', 'slip_length'], ['slip_length', 'visc_diss', 'slip_length'], ['visc_diss', 'M', 'slip_length']])
    sm = rng.random() < .3
    if sm: labels = [l for l in labels if l not in ('flow_angle', 'slip_length')] or ['M']
    cl = rng.choice([None, None, 'M', 'M', 'N', 'T', 'U', 'V'])
    cutoff = near(rng, rng.choice([None, 1, 2.5, 4, 0])) if cl or rng.random() < .3 else None
    if slip is True and cl == 'U': cl = 'V'
    if cutoff is not None and cl in ('U', 'V') and rng.random() < .5: cutoff = near(rng, rng.choice([-1, -3.5, -4, 0]))
    xl, yl = (None, None), (None, None)
    if rng.random() < .35:
        def one(a0, dd, n):
            i = rng.randint(0, (n - 1) // 2); j = rng.randint(n // 2, n - 1)
            return (rng.choice([None, a0 + dd * i, a0 + dd * (i - .5)]), rng.choice([None, a0 + dd * j, a0 + dd * (j + .5)]))
        xl, yl = one(g.x0, g.dx, g.nx), one(g.y0, g.dy, g.ny)
        xl, yl = [tuple(near(rng, v, 1 / 128) for v in l) for l in (xl, yl)]
    if at0: xl, yl = at0
    dt = rng.choice([1., 1., .5, 2.5, .125, 10., .1, .3, 0.])
    visc = rng.choice([1., .5]) if 'visc_diss' in labels else None
    out = os.path.join(dirn, rng.choice(['o.xvg', 'new/dir/s.dat'])) if rng.random() < .6 else None
    via = 'lib' if rng.random() < .5 or visc else 'cli'
    un.update(units(rng, 'tiny' if fmt != 'simple_plain' else True))
    for k, dat in enumerate(maps):
        write_map('%s%05d%s' % (base, begin + k, ext), g, in_units(dat, un), fmt)
    if cutoff is not None: written = cutoff * (un[cl] if cl else 1.)
    end = begin + rng.randint(0, nf - 1) if rng.random() < .2 else None
    used = nf if end is None else end - begin + 1
    floor = rng.choice([None, 0., 1., -2.5]) if slip else None
    ret, txt = None, ''
    if via == 'lib':
        kw = dict(begin=begin, ext=ext, quiet=rng.random() < .5, verbose=rng.random() < .5)
        if end is not None: kw['end'] = end
        if out: kw['output'] = out
        if sm: kw['sum'] = True
        if dt != 1.: kw['dt'] = dt
        if cl: kw['cutoff_label'] = cl
        if cutoff is not None: kw['cutoff'] = written
        if visc is not None: kw['viscosity'] = visc
        if floor is not None: kw['slip_floor'] = floor
        if xl != (None, None): kw['xlim'] = xl
        if yl != (None, None): kw['ylim'] = yl
        ret, exc = call(sample_average_files, base, labels, **kw)
    else:
        out = out or os.path.join(dirn, 'p.xvg')
        a = ['sample_average'] if False else [CMD, base] + labels + ['-b', begin, '--ext', ext, '-o', out]
        if end is not None: a += ['-e', end]
        if sm: a += ['--process', 'sum']
        if dt != 1.: a += ['-dt', dt]
        if cl: a += ['-cl', cl]
        if cutoff is not None: a += ['-co', written]
        if floor is not None: a += ['--floor', floor]
        if xl != (None, None): a += ['--xlim', xl[0], xl[1]]
        if yl != (None, None): a += ['--ylim', yl[0], yl[1]]
        txt, exc = cli(*a)
    ev = dict(k='series', via=via, fmt=fmt, g=grid_record(g, CS), maps=[data_rows(m) for m in maps[:used]] if slip is not True else
              [[[int(v) if l != 'U' else 0 for l, v in zip(('M', 'N', 'T', 'U', 'V'), r)] for r in zip(*[m[l] for l in ('M', 'N', 'T', 'U', 'V')])] for m in maps[:used]],
              labels=labels, sum=int(sm), cl=IDX[cl] if cl else 0, cut=two(cutoff),
              lim=[lim(v) for v in xl + yl], dt=enc(dt, 8000), kx=int(2 / g.dx), ky=int(2 / g.dy), exc=exc,
              floor=enc(floor or 0, VS), slips=slips[:used])
    # returned
    times, vals = [], []
    try:
        times = encs(ret[0], 8000)
        for l, s in zip(labels, ret[1]):
            vals.append([encode(l, x / (visc or 1.) if l == 'visc_diss' else x) for x in s])
    except Exception:
        vals = []
    ev.update(ret=int(via == 'lib' and ret is not None), times=times, vals=vals)
    # printed means
    means = []
    if via == 'cli':
        for line in txt.splitlines():
            w = line.split()
            if len(w) == 3 and w[0] in labels:
                try: means.append([w[0], encode(w[0], float(w[1]) / (visc or 1.) if w[0] == 'visc_diss' else float(w[1]))[0]])
                except ValueError: pass
    ev['printed'] = means
    # file
    rows, odd, devs = [], 0, []
    if out and os.path.exists(out):
        for line in open(out):
            if line.startswith('#') or not line.strip(): continue
            w = line.split()
            row = [enc(w[0], 8000)]
            pos = 1
            dev = []
            try:
                for l in labels:
                    x = float(w[pos]); pos += 1
                    if not sm and l != 'flow_angle':
                        dev.append(enc(float(w[pos]) / un.get(l, 1.), 64)); pos += 1
                    else:
                        dev.append(0)
                    row.append(encode(l, x / (visc or 1.) if l == 'visc_diss' else x))
                if pos != len(w): odd = 1
            except Exception:
                odd = 1
            rows.append(row)
            devs.append(dev)
    ev.update(file=int(bool(out)), rows=[[r[0]] for r in rows], cells=[r[1:] for r in rows], odd=odd, devs=devs)
    d.drop(dirn)
    d.emit(**ev)


CMD = None


def main(d):
    global CMD
    import strata.strata
    CMD = strata.strata.cmd_sample['name']
    for _ in range(d.a.count):
        series(d)


run('series', main)
