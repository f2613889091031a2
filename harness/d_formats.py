"""Read, write, truncate and convert map files."""
import os
import numpy as np
from vlib import *
from strata.dataformats.read import read_data_file
from strata.dataformats.write import write, flowdata_to_dict
from strata.convert import convert

CS, VS = 16000, 1000
un = {l: 1. for l in FIELDS}          # units of the fields in the present files
cs = [CS]                             # of the coordinates
large = [400000]                      # the largest of the values


def values(rng, n, zero, style):
    d = {}
    m = np.zeros(n)
    for l in ('M', 'N', 'T', 'U', 'V'):
        d[l] = np.zeros(n)
    for k in range(n):
        if rng.random() < zero:
            if style == 'loose' and rng.random() < .5:
                d['N'][k] = rng.randint(0, 9); d['U'][k] = rng.randint(-9, 9); d['T'][k] = 3
            continue
        for l in d:
            s = 1 if l in 'MNT' and rng.random() < .97 else rng.choice([-1, 1])
            d[l][k] = s * (rng.randint(1, 80) / 8 if rng.random() < .8 else rng.randint(1, large[0]) / 8)
        if rng.random() < .2: d['N'][k] = 0
        if rng.random() < .1: d['M'][k] = -d['M'][k] if rng.random() < .3 else .125
    return d


def rows(d):
    return [[enc(d[l][k], VS) for l in ('M', 'N', 'T', 'U', 'V')] for k in range(len(d['M']))]


def choose(rng, tiny):
    un.update(units(rng, tiny))
    if tiny == 'tiny' and rng.random() < .1: un['M'] = 2.**-32
    large[0] = 400000
    if rng.random() < .1:
        un.update({l: rng.choice([.1, 1 / 3, .7]) for l in ('M', 'N', 'T', 'U', 'V')})
        large[0] = 4000


def got(path):
    res, exc = call(read_data_file, path)
    r = dict(exc=exc, nx=0, ny=0, x0=0, y0=0, dx=0, dy=0, nb=0, xy=[], rows=[])
    if exc: return r
    try:
        data, info, meta = res
        r.update(nx=int(info['shape'][0]), ny=int(info['shape'][1]), nb=enc(info['num_bins']),
                 dx=enc(info['spacing'][0], cs[0]), dy=enc(info['spacing'][1], cs[0]),
                 xy=[[enc(a, cs[0]), enc(b, cs[0])] for a, b in zip(data['X'], data['Y'])],
                 rows=[[enc(data[l][k] / un[l], VS) for l in ('M', 'N', 'T', 'U', 'V')] for k in range(len(data['M']))])
        r['x0'] = min(p[0] for p in r['xy']) if r['xy'] else BAD
        r['y0'] = min(p[1] for p in r['xy']) if r['xy'] else BAD
    except Exception as e:
        r['exc'] = 'Encode' + type(e).__name__
    return r


def lines_of(d):
    """What stands in a file of a simple format, line by line."""
    return [[enc(d['X'][k], cs[0]), enc(d['Y'][k], cs[0])] + r for k, r in enumerate(rows(d))]


def reordered(rng, g, d):
    """The same map with its bins in another order, as they may be in a file or an object."""
    k = np.arange(g.nx * g.ny).reshape(g.nx, g.ny)
    how = rng.choice(['x', 'x', 'y', 'y', 'down', 'any'])
    if how == 'y': k = k.T
    if how == 'down': k = k[:, ::-1]
    k = list(k.ravel())
    if how == 'any': rng.shuffle(k)
    return {l: np.array(d[l])[k] for l in d}


def gmx_bytes(rng, g, d, wild):
    inds = list(np.where(d['M'] != 0)[0])
    if wild: rng.shuffle(inds)
    inds = np.array(inds, dtype=int)
    fields = ['IX', 'IY', 'N', 'T', 'M', 'U', 'V']
    if wild: rng.shuffle(fields)
    fmt = 'FORMAT GMX_FLOW_%d' % (rng.choice([1, 1, 2]) if wild else 1)
    lines = ['ORIGIN %12f %12f' % g.corner, 'SHAPE %d %d' % (g.nx, g.ny), 'SPACING %12f %12f' % (g.dx, g.dy),
             'NUMDATA %d' % len(inds), 'FIELDS ' + ' '.join(fields)]
    ncom = rng.choice([0, 1, 3]) if wild else 2
    for _ in range(ncom):
        lines.append('COMMENT ' + 'x' * rng.choice([1, 10, 60]) + ' of SHAPE')
    if wild: rng.shuffle(lines)
    if wild and rng.random() < .2: lines = [l[0:l.index(' ')].lower() + l[l.index(' '):] for l in lines]
    head = fmt + '\n' + '\n'.join(lines) + '\n'
    if wild and rng.random() < .7:
        # header lengths around multiples of the chunk size of a reader
        want = rng.choice([512, 1024, 1024, 2048, 4096, 3072]) + rng.choice([-2, -1, 0, 1, 2, 5, rng.randint(-300, 300)])
        if want > len(head) + 12:
            head += 'COMMENT ' + 'c' * (want - len(head) - 9) + '\n'
    out = head.encode() + b'\0'
    cols = dict(IX=(inds // g.ny).astype(np.uint64), IY=(inds % g.ny).astype(np.uint64))
    for f in fields:
        out += (cols[f] if f in cols else d[f][inds].astype(np.float32)).tobytes()
    return out, len(head)


def a_grid(rng, nmin):
    g = rgrid(rng, nmin, 6)
    r = rng.random()
    if r < .1: g.dx, g.dy = rng.choice([.1, .3, .26, .005, .0078125]), rng.choice([.1, .35, .01, .004])
    if r < .2: g.x0, g.y0 = rng.randint(-9999, 9999) / 1000, rng.choice([0, rng.randint(-9999, 9999) / 1000])
    elif r < .25:                    # coordinates whose bytes look like text
        g.x0, g.y0 = (float(np.frombuffer(rng.choice([b'ABCA', b'bA0@', b'BBA>', b'X 1>']), '<f4')[0]) for _ in range(2))
    return g


def put(rng, path, g, data, fmt):
    if fmt == 'gmx':
        with open(path, 'wb') as fp: fp.write(gmx_bytes(rng, g, in_units(data, un), rng.random() < .5)[0])
    else:
        write_map(path, g, in_units(data, un), fmt)


def several(d, dirn):
    """A series of maps on grids of their own, also in different formats, converted at once."""
    rng = d.rng
    b, o = os.path.join(dirn, 'in_'), os.path.join(dirn, 'out_')
    num, to = rng.choice([1, 0, 99999]), rng.choice(['gmx', 'simple', 'simple_plain'])
    maps = []
    for k in range(rng.randint(2, 4)):
        start = rng.choice(['gmx', 'gmx', 'simple', 'simple_plain'])
        g = a_grid(rng, 2)
        v = values(rng, g.nx * g.ny, rng.choice([0, .3]), 'gmx' if start == 'gmx' else 'loose')
        X, Y = g.coords()
        data = dict(v, X=X, Y=Y)
        if start != 'gmx': data = reordered(rng, g, data)
        put(rng, '%s%05d.dat' % (b, num + k), g, data, start)
        maps.append((start, g, v, lines_of(data) if start != 'gmx' else []))
    if rng.random() < .5: _, exc = call(convert, b, o, begin=num, quiet=True, ftype=to)
    else: _, exc = cli('convert', b, o, '-b', num, '--ftype', to)
    for k, (start, g, v, lines) in enumerate(maps):
        x = got('%s%05d.dat' % (o, num + k))
        if exc: x['exc'] = exc
        d.emit(k='chain', fmts=[start, to], g=grid_record(g, CS), rows=rows(v), lines=lines, steps=[x])


def main(d):
    rng = d.rng
    gmx_only = d.a.prop == 'P09'
    n = 0
    while n < d.a.count:
        dirn = d.tmp()
        f = os.path.join(dirn, 'a.dat')
        cs[0] = CS
        choose(rng, 'tiny' if gmx_only else False)
        if gmx_only:
            g = rgrid(rng, 1, 6)
            if rng.random() < .3:
                g = Grid(g.nx, g.ny, rng.choice([.1, .3, .26, 1.7]), rng.choice([.1, .35, .2]), rng.choice([.05, 3.3, -7.15]), rng.choice([.1, .175, 0]))
            elif rng.random() < .3:
                # bins of all sizes which the header can hold, also many in a row
                n1, n2 = rng.choice([(rng.randint(1, 3), rng.randint(20, 60)), (rng.randint(20, 60), rng.randint(1, 3)), (rng.randint(1, 6), rng.randint(1, 6))])
                g = Grid(n1, n2, rng.randint(1, 160) / 64, rng.randint(1, 160) / 64, rng.randint(-999, 999) / 64, rng.choice([0, rng.randint(-999, 999) / 64]))
                cs[0] = 1000000
            v = values(rng, g.nx * g.ny, rng.choice([0, .3, .9]), 'gmx')
            raw, hlen = gmx_bytes(rng, g, in_units(v, un), rng.random() < .8)
            r = rng.random()
            grec = grid_record(g, cs[0])
            if r < .45:
                with open(f, 'wb') as fp: fp.write(raw)
                x = got(f)
                d.emit(k='read', fmt='gmx', g=grec, rows=rows(v), lines=[], hlen=hlen, exc=x['exc'], got=x)
            elif r < .7:
                cuts = {rng.randrange(len(raw)) for _ in range(4)} | {len(raw) - 1, hlen, hlen - 1, hlen + 1, max(hlen + 1, len(raw) - 4)}
                for t in sorted(c for c in cuts if 0 <= c < len(raw)):
                    with open(f, 'wb') as fp: fp.write(raw[:t])
                    x = got(f)
                    d.emit(k='truncated', at=t, hlen=hlen, size=len(raw), exc=x['exc'])
            else:
                X, Y = g.coords()
                data = reordered(rng, g, dict(v, X=X, Y=Y))
                info = dict(shape=(g.nx, g.ny), spacing=(g.dx, g.dy), origin=g.corner, num_bins=g.nx * g.ny)
                if rng.random() < .5:
                    info = {k: list(x) if isinstance(x, tuple) else x for k, x in info.items()}
                kw = {} if rng.random() < .5 else dict(ftype='gmx')
                _, exc = call(write, f, in_units(data, un), info, **kw)
                rec = map_record(f, cs[0], VS, un)
                d.emit(k='written', g=grec, lines=lines_of(data), exc=exc, got=rec)
                if not exc:
                    x = got(f)
                    d.emit(k='read', fmt='gmx', g=grec, rows=rows(v), lines=[], hlen=-1, exc=x['exc'], got=x)
        elif rng.random() < .2:
            several(d, dirn)
        else:
            start = rng.choice(['gmx', 'simple', 'simple_plain'])
            simple1 = rng.random() < .25
            g = a_grid(rng, 1 if simple1 else 2)
            v = values(rng, g.nx * g.ny, rng.choice([0, .3, .9]), 'gmx' if start == 'gmx' else 'loose')
            X, Y = g.coords()
            data = dict(v, X=X, Y=Y)
            if start != 'gmx': data = reordered(rng, g, data)
            if start == 'simple' and g.nx > 1 and g.ny > 1 and rng.random() < .15:
                # all bytes of the binary file are those of a text
                un.update({l: 1. for l in FIELDS})
                g = Grid(rng.randint(2, 6), rng.randint(2, 4), 1., .125, float(rng.choice([8, 9, 10])), .5)
                X, Y = g.coords()
                for l in v: v[l] = np.array([rng.choice([0, 0, .5, .625, 2, 2.5, 3, 8, 9, 12, 15]) for _ in range(g.nx * g.ny)], dtype=float)
                data = reordered(rng, g, dict(v, X=X, Y=Y))
            lines = lines_of(data) if start != 'gmx' else []
            grec = grid_record(g, CS)
            b = os.path.join(dirn, 'c0_')
            num = rng.choice([1, 0, 17, 123456])
            if start == 'simple_plain' and rng.random() < .4:
                cols = list(FIELDS); rng.shuffle(cols)
                write_simple('%s%05d.dat' % (b, num), g, in_units(data, un), False, cols)
            else:
                put(rng, '%s%05d.dat' % (b, num), g, data, start)
            if start != 'gmx' and (g.nx == 1 or g.ny == 1):
                x = got('%s%05d.dat' % (b, num))
                # the spacing along an axis with a single bin is not known
                if g.nx == 1: grec['dx'] = x['dx']
                if g.ny == 1: grec['dy'] = x['dy']
                d.emit(k='read', fmt=start, g=grec, rows=rows(v), lines=lines, hlen=-1, exc=x['exc'], got=x)
            else:
                x = got('%s%05d.dat' % (b, num))
                d.emit(k='read', fmt=start, g=grec, rows=rows(v), lines=lines, hlen=-1, exc=x['exc'], got=x)
                if g.nx > 1 and g.ny > 1:
                    fmts, steps = [start], []
                    prev = b
                    for s in range(rng.randint(1, 4)):
                        to = rng.choice(['gmx', 'simple', 'simple_plain'])
                        nxt = os.path.join(dirn, 'c%d_' % (s + 1))
                        how = rng.random()
                        if how < .4:
                            kw = {} if to == 'gmx' and rng.random() < .5 else dict(ftype=to)
                            _, exc = call(convert, prev, nxt, begin=num, quiet=rng.random() < .5, **kw)
                        elif how < .75:
                            _, exc = cli('convert', prev, nxt, '-b', num, *([] if to == 'gmx' and rng.random() < .5 else ['--ftype', to]))
                        else:
                            def rw():
                                a, i, _ = read_data_file('%s%05d.dat' % (prev, num))
                                if rng.random() < .5:
                                    from droplets.flow import FlowData
                                    a = flowdata_to_dict(FlowData(a, info=i))
                                write('%s%05d.dat' % (nxt, num), a, i, ftype=to)
                            _, exc = call(rw)
                        fmts.append(to)
                        x = got('%s%05d.dat' % (nxt, num))
                        if exc: x['exc'] = exc
                        steps.append(x)
                        if x['exc']: break
                        prev = nxt
                    d.emit(k='chain', fmts=fmts, g=grec, rows=rows(v), lines=lines, steps=steps)
        d.drop(dirn)
        n += 1


run('formats', main)
