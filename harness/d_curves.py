"""Spreading curves: reading, scaling, synchronising, saving, drawing, and fits."""
import os, re
os.environ['MPLBACKEND'] = 'Agg'
import numpy as np
import matplotlib
matplotlib.use('Agg')
import matplotlib.pyplot as plt
import matplotlib.figure
from vlib import *
from strata.spreading.view import view_spreading, read_spreading_data, combine_spreading_data, write_spreading_data
from strata.spreading.fit import fit_spreading_data

DEN = 64
UNIT = 12 * 200         # numbers are multiples of 1/64 in the files, and recorded times REC
REC = DEN * UNIT
lines_drawn = []
_save = matplotlib.figure.Figure.savefig


def savefig(self, *a, **kw):
    for ax in self.axes[:1]:
        lines_drawn.append([(np.array(l.get_xdata(orig=True), float), np.array(l.get_ydata(orig=True), float)) for l in ax.get_lines()])
    return _save(self, *a, **kw)


matplotlib.figure.Figure.savefig = savefig


def number(rng, v):
    """A text for the number v / DEN; BAD for not a number"""
    if v == BAD: return rng.choice(['nan', 'NaN', 'NAN'])
    x = v / DEN
    f = rng.choice(['%.10g', '%.6f', '%.9e', '%r', '%11.6f'])
    return f % x


def text_of(rng, lines):
    out = []
    for l in lines:
        if l['t'] == 'row':
            s = rng.choice([' ', '  ', '\t']).join(number(rng, v) for v in l['v'])
            out.append(rng.choice(['', '', ' ']) + s + rng.choice(['', '', ' ']))
        elif l['t'] == 'sep':
            out.append(l['s'])
        else:
            out.append(l['s'])
    return '\n'.join(out) + rng.choice(['\n', '\n', ''])


def a_set(rng, n, cols, gaps):
    t = DEN * rng.randint(0, 8) // 8
    rows = []
    down = rng.random() < .1
    twice = rng.random() < .15           # a time may come more than once
    fine = rng.choice([1, 1, DEN // 8, DEN])
    r = [fine * rng.randint(1, 20) for _ in range(cols)]
    if rng.random() < .04: n, gaps = rng.choice([61, 70, 130, 260]), min(gaps, .02)      # a long series
    for _ in range(n):
        rows.append([t] + [BAD if rng.random() < gaps else v for v in r])
        t += 0 if twice and rng.random() < .3 else rng.choice([DEN, DEN, DEN // 2, 1, DEN // 8, 5 * DEN if n < 50 else 3])
        r = [max(0, v + (-1 if down else 1) * fine * rng.choice([0, 1, 2, 5, -1])) for v in r]
    return rows


def a_file(rng):
    """Lines of a file: plain columns, Grace with one or more sets, or damaged."""
    kind = rng.choice(['plain', 'plain', 'grace', 'grace', 'at', 'bad'])
    L = []
    note = lambda s: L.append(dict(t='note', v=[], s=s))
    row = lambda v: L.append(dict(t='row', v=v, s=''))
    gaps = rng.choice([0, 0, .2])
    for _ in range(rng.randint(0, 3)):
        note(rng.choice(['# a comment', '#', '# 1 2 3', '#x y']))
    if kind in ('plain', 'at', 'bad'):
        if kind == 'at':
            for _ in range(rng.randint(1, 3)): note(rng.choice(['@    title "Spreading"', '@TYPE xy', '@ s0 legend "a b"', '@with g0']))
        cols = rng.choice([1, 1, 2, 3, 6])
        for v in a_set(rng, rng.choice([1, 2, 4, 7]), cols, gaps):
            if rng.random() < .1: note(rng.choice(['# between', '']))
            row(v)
        if kind == 'bad':
            L.insert(rng.randint(0, len(L)), dict(t='bad', v=[], s=rng.choice(['hello', '1 2 x', '1 - 2', '3,4'])))
    else:
        note('@with g0')
        if rng.random() < .5: note('@    s0 comment "x.1"')
        for s in range(rng.randint(1, 3)):
            L.append(dict(t='sep', v=[], s='@target G0.S%d' % s))
            if rng.random() < .8: note('@type xy')
            for v in a_set(rng, rng.choice([1, 2, 4, 7]), rng.choice([1, 1, 1, 2]), gaps):
                if rng.random() < .05: note(rng.choice(['# between', '']))
                row(v)
            if rng.random() < .7: L.append(dict(t='sep', v=[], s='&'))
    return L


def parse_xvg(path):
    """Independent reader of saved files: list of curves."""
    curves = []
    for line in open(path):
        line = line.strip()
        if line.startswith('@target'): curves.append([])
        elif line and line[0] not in '#@&':
            curves[-1].append([float(w) for w in line.split()])
    return curves


def enc_series(ss, unit=REC):
    return [[[enc(t, unit), enc(r, unit)] for t, r in zip(s.index, s.values)] for s in ss]


def enc_points(cs, unit=REC):
    try:
        return [[[enc(p[0], unit), enc(p[1], unit)] if len(p) == 2 else [BAD, BAD] for p in c] for c in cs]
    except Exception:
        return [[[BAD, BAD]]]


FACT = [(1, 1), (2, 1), (1, 2), (4, 1), (1, 4)]


def view(d):
    rng = d.rng
    dirn = d.tmp()
    nf = rng.choice([1, 1, 2, 3])
    files = [a_file(rng) for _ in range(nf)]
    paths = []
    for q, L in enumerate(files):
        p = os.path.join(dirn, rng.choice(['s%d.xvg', 'a b%d', 'x.%d.dat']) % q)
        with open(p, 'w') as fp: fp.write(text_of(rng, L))
        paths.append(p)
    read, exc0 = call(read_spreading_data, *paths)
    rd = [enc_series(read)] if exc0 == '' else [[[[BAD, BAD]]]]
    named = {'%s.%d' % (p, k): [q + 1, k] for q, p in enumerate(paths) for k in range(1, 20)}
    names = [[named.get(s.name, [0, 0]) for s in read]] if exc0 == '' else []
    n = len(rd[0])
    via = rng.choice(['lib', 'lib', 'cli', 'parts'])
    tau = [rng.choice(FACT + [(3, 1)])]
    R = [rng.choice(FACT)]
    if via != 'cli' and n > 1:
        if rng.random() < .3: tau = [rng.choice(FACT + [(3, 1)]) for _ in range(n)]
        if rng.random() < .3: R = [rng.choice(FACT) for _ in range(n)]
    f = lambda v: v[0][0] / v[0][1] if len(v) == 1 else [a / b for a, b in v]
    sync = rng.choice([None, rng.randint(0, 40) / 8., rng.randint(0, 80) / DEN])
    target = os.path.join(dirn, rng.choice(['out.xvg', 'sub/out.xvg', 'new']))
    fig = os.path.join(dirn, 'fig.png')
    draw = rng.random() < .3
    lines_drawn[:] = []
    exc, saved, back, drawn, keep = '', [], [], [], True
    if via == 'parts':
        res, exc = call(combine_spreading_data, read, **dict([('tau', f(tau))] * (tau != [(1, 1)]) + [('R', f(R))] * (R != [(1, 1)]) + [('sync_radius', sync)] * (sync is not None)))
        if exc == '': drawn = [enc_series(res)]
        if exc == '':
            _, exc = call(write_spreading_data, target, res)
        if exc == '' and rng.random() < .5: rd = [enc_series(read)]          # the curves that were given are not changed
    elif via == 'lib':
        kw = dict(show=False, save_xvg=target)
        if tau != [(1, 1)] or rng.random() < .5: kw['tau'] = f(tau)
        if R != [(1, 1)] or rng.random() < .5: kw['R'] = f(R)
        if sync is not None: kw['sync_radius'] = sync
        if draw: kw['save_fig'] = fig
        if rng.random() < .2: del kw['save_xvg']
        keep = 'save_xvg' in kw
        _, exc = call(view_spreading, paths, **kw)
    else:
        a = ['spreading', 'view', '--noshow', '-x', target]
        if tau != [(1, 1)]: a += ['-t', repr(f(tau))]
        if R != [(1, 1)]: a += ['-r', repr(f(R))]
        if sync is not None: a += ['-rs', sync]
        if draw: a += ['-o', fig]
        if rng.random() < .1: a += ['--loglog']
        _, exc = cli(*a, '--', *paths)
    if exc == '' and not keep and os.path.exists(target): saved = [[[[BAD, BAD]]]]
    if exc == '' and keep:
        try:
            saved = [enc_points(parse_xvg(target))] if os.path.exists(target) else [[[[BAD, BAD]]]]
        except Exception:
            saved = [[[[BAD, BAD]]]]
        try:
            names += [[named.get(m.group(1), [0, 0]) for m in (re.match(r'@ +s\d+ comment "(.*)"$', l) for l in open(target)) if m]]
        except Exception:
            names += [[[0, 0]]]
        b, e2 = call(read_spreading_data, target)
        back = [enc_series(b)] if e2 == '' else [[[[BAD, BAD]]]]
    if exc == '':
        if draw and via != 'parts' and n > 0:
            drawn = [[[[enc(x, REC), enc(y, REC)] for x, y in zip(*l)] for l in lines_drawn[-1]]] if lines_drawn else [[[[BAD, BAD]]]]
    plt.close('all')
    d.emit(k='view', via=via, files=[[dict(t=l['t'], v=l['v']) for l in L] for L in files], unit=UNIT, tau=[list(v) for v in tau], R=[list(v) for v in R],
           sync=[0, 0] if sync is None else [1, enc(sync, REC)], exc=exc0 or exc, read=rd, names=names, saved=saved, back=back, drawn=drawn)
    d.drop(dirn)


TS = 64


def log2(v):
    return enc(1000 * np.log2(v)) if np.isfinite(v) and v > 0 else BAD


def curve(rng):
    """Points (t * 64, log2 t, log2 r, t, r) on a law or near it, with a start at times <= 0"""
    n = rng.randint(2, 6)
    xs = sorted(rng.sample(range(-5, 9), n))
    if rng.random() < .1: rng.shuffle(xs)
    k, a = rng.choice([0, 1, 2, -1, 3]), rng.randint(-3, 5)
    ps = []
    exact = rng.random() < .4
    for x in xs:
        y = a + k * x if exact else rng.randint(-4, 9)
        y = max(-9, min(10, y))
        ps.append((int(TS * 2. ** x), x, y, 2. ** x, 2. ** y))
    for q in range(rng.choice([0, 0, 1, 2])):
        t = -q
        r = rng.choice([.5, 3., 7., 100.])
        ps.insert(0, (TS * t, BAD, BAD, float(t), r))
    if rng.random() < .3:            # anything at all at times which the limits may exclude
        t = rng.choice([3., 300., 1000., .75])
        p = (int(TS * t), BAD, BAD, t, rng.choice([5., 77., .3]))
        ps.append(p)
        ps.sort(key=lambda v: v[3])
    return ps


def fit(d):
    rng = d.rng
    dirn = d.tmp()
    curves, paths = [], []
    for q in range(rng.choice([1, 1, 2, 3])):
        p = os.path.join(dirn, 'c %d.xvg' % q)
        with open(p, 'w') as fp:
            style = rng.choice(['plain', 'grace', 'columns'])
            if style == 'plain':
                c = curve(rng)
                fp.write('# x\n' + ''.join('%r %r\n' % v[3:] for v in c))
                curves.append(c)
            elif style == 'columns':
                c = curve(rng)
                c2 = [v[:2] + ((y, v[3], 2. ** y) if v[2] != BAD else (BAD, v[3], 9.)) for v in c for y in [rng.randint(-3, 9)]]
                gap = [rng.random() < .15 for _ in c]
                fp.write(''.join('%r %r %s\n' % (v[3:] + ('nan' if s else repr(w[4]),)) for v, w, s in zip(c, c2, gap)))
                curves += [c, [w for w, s in zip(c2, gap) if not s]]
            else:
                for s in range(rng.randint(1, 2)):
                    c = curve(rng)
                    fp.write('@target G0.S%d\n@type xy\n' % s + ''.join('%r %r\n' % v[3:] for v in c) + '&\n')
                    curves.append(c)
        paths.append(p)
    def limits():
        if rng.random() < .4: return (None, None)
        lo, hi = sorted([2. ** rng.randint(-6, 8) * rng.choice([1, 1, 1.25]), 2. ** rng.randint(-5, 9) * rng.choice([1, 1, .75])])
        r = rng.random()
        if r < .1: return (5000., 6000.)
        if r < .25: return rng.choice([(0., hi), (0., None), (-1., hi), (None, 0.), (-2., 0.), (-1., None)])
        return rng.choice([(lo, hi), (lo, None), (None, hi)])
    lims, outlims = limits(), limits()
    lim = lambda v: [0, 0] if v is None else [1, enc(v, TS * 4)]
    target = os.path.join(dirn, rng.choice(['fit.xvg', 'sub/fit.xvg']))
    fig = os.path.join(dirn, 'fig.png')
    save, draw = rng.random() < .7, rng.random() < .25
    lines_drawn[:] = []
    via = rng.choice(['lib', 'cli'])
    out = []
    if via == 'lib':
        kw = dict(show=False)
        if lims != (None, None): kw['lims'] = lims
        if outlims != (None, None): kw['out_lims'] = outlims
        if save: kw['save_xvg'] = target
        if draw: kw['save_fig'] = fig
        res, exc = call(fit_spreading_data, paths, **kw)
        if exc == '':
            try: out = [[log2(a), enc(k, 1000)] for a, k in res]
            except Exception: out = [[BAD, BAD]]
    else:
        o = lambda v: 'None' if v is None else repr(v)
        a = ['spreading', 'fit', '--noshow']
        if lims != (None, None): a += ['--lims', o(lims[0]), o(lims[1])]
        if outlims != (None, None): a += ['--out_lims', o(outlims[0]), o(outlims[1])]
        if save: a += ['-x', target]
        if draw: a += ['-o', fig]
        text, exc = cli(*a, '--', *paths)
        if exc == '':
            for line in text.splitlines():
                try:
                    x, y = [float(w) for w in line.split()]
                    out.append([log2(x), enc(y, 1000)])
                except Exception: pass
    saved, drawn = [], []
    if exc == '' and save:
        try: saved = [[[[enc(p[0], TS * 4), log2(p[1])] for p in c] for c in parse_xvg(target)]]
        except Exception: saved = [[[[BAD, BAD]]]]
    if exc == '' and draw:
        drawn = [[[[enc(x, TS * 4), log2(y)] for x, y in zip(*l)] for l in lines_drawn[-1]]] if lines_drawn else [[]]
    plt.close('all')
    d.emit(k='fit', via=via, curves=[[[enc(v[3], TS * 4), v[1], v[2]] for v in c] for c in curves], lims=[lim(v) for v in lims], outlims=[lim(v) for v in outlims],
           exc=exc, out=out, printed=int(via == 'cli'), saved=saved, drawn=drawn)
    d.drop(dirn)


def main(d):
    for i in range(d.a.count):
        if d.a.prop == 'P27' or (d.a.prop != 'P26' and i % 2): fit(d)
        else: view(d)


run('d_curves', main)
