"""Histories of flow data objects: what every operation leaves in all of them."""
import numpy as np
from vlib import *
from droplets.flow import FlowData

L = ['X', 'Y', 'M', 'U', 'V']
H = 2                               # values are recorded in halves


def pair(v, scale):
    return [] if v is None or any(x is None for x in v) else [enc(x, scale) for x in v]


def observe(f):
    labels = list(f.data.dtype.names)
    rows = [[enc(r[l], H) for l in L] for r in f.data]
    got = [list(r) for r in zip(*[encs(f.get_data(l), H) for l in L])]
    return dict(rows=rows, types=[f.data.dtype[l].str for l in labels], labels=labels,
                got=got, none=int(f.get_data('nothing') is None),
                num=[] if f.num_bins is None else [int(f.num_bins)], origin=pair(f.origin, H),
                shape=pair(f.shape, 1), spacing=pair(f.spacing, H), size=pair(f.size(), H))


def representable(f):
    with np.errstate(all='ignore'):
        return all(np.all(np.isfinite(f.data[l])) and np.all(f.data[l] * H == np.round(f.data[l] * H)) for l in L) and \
            all(x is None or (x * H == round(x * H)) for x in tuple(f.origin) + tuple(f.spacing))


def calls(d):
    """Functions that take flow data objects."""
    from droplets import resample, sample, interface, average
    import droplets.contact_line as cl
    rng = d.rng

    def bad(fn):
        fn.bad = 1
        return fn

    def sorts(fn):              # documented to sort the object
        fn.sorts = 1
        return fn

    return [
        lambda f: resample.supersample_flow_data(f, rng.choice([1, 1, 2])),
        lambda f: resample.downsample_flow_data(f, (rng.choice([1, 2]), rng.choice([1, 2]))),
        lambda f: average.average_flow_data([f, f]),
        lambda f: list(interface.get_interface(f, 'M', cutoff=rng.choice([None, 1.]))),
        lambda f: list(interface.get_interface(f, 'M', search_longest_connected=True, cutoff_radius=1.)),
        lambda f: interface.get_contact_angle(f, 1., 'M'),
        sorts(lambda f: sample.sample_viscous_dissipation(f, 1., weight_label=rng.choice([None, 'M']))),
        lambda f: (sample.sample_inertial_energy(f), sample.sample_flow_angle(f, weight='M'), sample.sample_center_of_mass(f)),
        lambda f: sample.sample_per_angle_from(f, (0., 0.), 'U', weight=rng.choice([None, 'M']), size=90.),
        lambda f: cl.get_contact_line_cells(f, 'M', (1., 2.), 0.),
        bad(lambda f: f.lims('nothing', 0, 1)),
        bad(lambda f: f.translate('nothing', 1)),
        bad(lambda f: f.translate('U', np.arange(len(f.data) + 2))),
        bad(lambda f: f.lims('X', 'a', None)),
    ]


def build(rng, cols, labels, types, shape2, info):
    arrs = []
    for l, c, t in zip(labels, cols, types):
        a = c if isinstance(c, list) else np.asarray(c)
        arrs.append((l, a))
    how = rng.randrange(3)
    if how == 0: args = arrs
    elif how == 1: args = [dict(arrs)]
    else: args = arrs[:2] + [dict(arrs[2:])]
    kw = {} if info is None else dict(info=info)
    return FlowData(*args, **kw)


def history(d, beh):
    rng = d.rng
    types = [rng.choice(['<f8', '<f8', '<f4']) for _ in L] if rng.random() < .5 else [rng.choice(['<f8', '<f4'])] * 5
    objs, arrs, steps, arr0, first = [], None, [], None, True
    infos = []
    fns = calls(d)
    for o in beh['ops']:
        op, exc, r = o['op'], '', None
        if op == 'new':
            g = o['g']
            n = g['nx'] * g['ny']
            two = rng.random() < .5
            arrs = []
            for l in range(5):
                c = [0.5 * ((g['x0'] + g['s'] * (k // g['ny'])) if l == 0 else (g['y0'] + g['s'] * (k % g['ny'])) if l == 1
                            else ((k + 1) * (l + 2)) % 5) for k in range(n)]
                a = np.array(c, dtype=types[l])
                arrs.append(a.reshape(g['nx'], g['ny']) if two else a)
            arr0 = [encs(a, H) for a in arrs]
            steps_arr = arr0
            op, o = 'again', dict(op='again', w=o['info'], g=g)

        def ginfo(g):
            seq = rng.choice([tuple, list])
            return dict(num_bins=g['nx'] * g['ny'], origin=seq((.5 * g['x0'], .5 * g['y0'])), shape=seq((g['nx'], g['ny'])), spacing=seq((.5 * g['s'], .5 * g['s'])))

        def rec(i):
            if not i: return dict(num=[], origin=[], shape=[], spacing=[])
            return dict(num=[i['num_bins']], origin=[enc(x, H) for x in i['origin']], shape=list(i['shape']), spacing=[enc(x, H) for x in i['spacing']])

        k = (o.get('o', 1) - 1) % max(1, len(objs))
        lab = L[o.get('l', 1) - 1]
        half = lambda v: None if v == [] else .5 * v[0]
        done = dict(op=op)
        if op == 'again':
            info = ginfo(o['g']) if 'g' in o and o['w'] else None
            done.update(types=types, info=rec(info))
            r, exc = call(build, rng, arrs, L, types, None, info)
            if info is not None and rng.random() < .5:
                for v in info.values():
                    if isinstance(v, list): v[0] = 77
        elif op == 'from':
            f = objs[k]
            done.update(o=k + 1, info=rec(None))
            r, exc = call(build, rng, [f.data[l] for l in L], L, types, None, None)
        elif op == 'copy':
            done.update(o=k + 1)
            r, exc = call(objs[k].copy)
        elif op == 'lims':
            done.update(o=k + 1, l=o['l'], lo=o['lo'], hi=o['hi'])
            r, exc = call(objs[k].lims, lab, half(o['lo']), half(o['hi']))
        elif op == 'cut':
            a = o['lim']
            done.update(o=k + 1, lim=a)
            kw = {}
            if a[0] or a[1] or rng.random() < .5: kw['xlim'] = (half(a[0]), half(a[1]))
            if a[2] or a[3] or rng.random() < .5: kw['ylim'] = (half(a[2]), half(a[3]))
            r, exc = call(objs[k].cut, **kw)
        elif op in ('translate', 'translates'):
            f = objs[k]
            vs = [o['v']] if op == 'translate' else [o['v'] * (q + 1) for q in range(len(f.data))]
            done.update(op='translate', o=k + 1, l=o['l'], vs=vs if len(vs) else [0])
            r, exc = call(f.translate, lab, .5 * o['v'] if op == 'translate' else .5 * np.array(vs))
        elif op == 'sort':
            done.update(o=k + 1)
            x, exc = call(objs[k].sort)
        elif op == 'poke':
            f = objs[k]
            if not len(f.data): continue
            q = (o['r'] - 1) % len(f.data)
            done.update(o=k + 1, r=q + 1, l=o['l'], v=o['v'])
            if rng.random() < .5: f.data[lab][q] = .5 * o['v']
            else: f.get_data(lab)[q] = .5 * o['v']
        elif op == 'info':
            i = ginfo(o['g'])
            done.update(o=k + 1, info=rec(i))
            if rng.random() < .5:
                x, exc = call(objs[k].set_info, i)
            else:
                def setall(f=objs[k], i=i):
                    for a, v in i.items(): setattr(f, a, v)
                x, exc = call(setall)
            for v in i.values():
                if isinstance(v, list): v[1] = 66
        elif op == 'array':
            a = arrs[o['l'] - 1]
            a.flat[(o['q'] - 1) % a.size] = .5 * o['v']
        elif op == 'call':
            fn = rng.choice(fns)
            done.update(o=k + 1, sorts=getattr(fn, 'sorts', 0), bad=getattr(fn, 'bad', 0) if len(objs[k].data) != 0 else 0)
            r, exc = call(fn, objs[k])
            if isinstance(r, tuple): r = r[0]
            if not (isinstance(r, FlowData) and list(r.data.dtype.names) == L and len(r.data) <= 64 and representable(r)):
                r = None
        if isinstance(r, FlowData):
            objs.append(r)
        steps.append(dict(op=done, exc=exc, objs=[observe(f) for f in objs], arr=[encs(a, H) for a in arrs]))
        if not objs: break
    d.emit(k='history', arr=arr0, steps=steps)


def main(d):
    for i, b in enumerate(d.behaviours()):
        if d.mine(i): history(d, b)


run('flow', main)
