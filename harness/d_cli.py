"""The command line against the library: both are run on copies of the same files."""
import hashlib, importlib, os, re, shutil, subprocess, sys, io, contextlib
os.environ['MPLBACKEND'] = 'Agg'
os.environ['SOURCE_DATE_EPOCH'] = '0'
import numpy as np
import matplotlib
matplotlib.use('Agg')
import matplotlib.pyplot as plt
from vlib import *
import strata.strata

_rc = dict(matplotlib.rcParams)


def shown(*a, **kw):
    """What would be on the screen"""
    marks = []
    for n in plt.get_fignums():
        fig = plt.figure(n)
        buf = io.BytesIO()
        size = '%s %s' % (list(fig.get_size_inches()), fig.dpi)
        fig.savefig(buf, format='raw', dpi=50)
        marks.append(size + hashlib.md5(buf.getvalue()).hexdigest()[:12])
    print('SHOWN', *marks)


plt.show = shown


def world(d, root):
    """Maps of a droplet that moves and spreads, interfaces, and curves."""
    rng = d.rng
    dx, dy = rng.choice([.5, .5, .25, 1.]), rng.choice([.5, .5, .25])
    g = Grid(rng.randint(9, 12), rng.randint(4, 6), dx, dy, dx * .5, dy * rng.choice([.5, .5, 0]))
    X, Y = g.coords()
    os.makedirs(root)
    a, w = rng.randint(1, 3), rng.randint(3, 5)
    for ext, n in (('.dat', 5), ('.map', 3)):
        for q in range(0 if rng.random() < .7 else 1, n + 1):
            dat = {'X': X, 'Y': Y}
            for l in ('M', 'N', 'T', 'U', 'V'): dat[l] = np.zeros(len(X))
            for j in range(g.ny):
                for i in range(a + (j > 1), min(g.nx - 1, a + w - (j > 1))):
                    k = i * g.ny + j
                    dat['M'][k] = rng.randint(3, 9)
            for k in range(len(X)):
                if dat['M'][k] == 0 and rng.random() < .12: dat['M'][k] = rng.randint(1, 3)
                if dat['M'][k]:
                    dat['N'][k], dat['T'][k] = rng.randint(1, 9), rng.randint(1, 9)
                    dat['U'][k], dat['V'][k] = rng.randint(-9, 9), rng.randint(-9, 9)
            write_map(os.path.join(root, 'm_%05d%s' % (q, ext)), g, dat, 'gmx')
            a, w = max(1, a + rng.choice([-1, 0, 1])), max(3, min(8, w + rng.choice([0, 1, -1])))
    for ext, n in (('.xvg', 4), ('.map', 3)):
        for q in range(0 if rng.random() < .7 else 1, n + 1):
            m = rng.randint(4, 6)
            y = [.25 + .5 * j for j in range(m)]
            l = [rng.randint(4, 12) / 8. + j * .125 for j in range(m)]
            r = [rng.randint(20, 36) / 8. - j * .125 for j in range(m)]
            with open(os.path.join(root, 'i_%05d%s' % (q, ext)), 'w') as fp:
                fp.write('# interface\n' + ''.join('%.3f %.3f\n' % p for p in list(zip(l, y)) + list(zip(r, y))[::-1]))
    with open(os.path.join(root, 's1.xvg'), 'w') as fp:
        fp.write('# t r r\n' + ''.join('%g %g %g\n' % (t / 2., 1 + (t + rng.randint(0, 2)) / 4., .5 + rng.randint(1, 20) / 8.) for t in range(0, 8)))
    with open(os.path.join(root, 's2.xvg'), 'w') as fp:
        fp.write('@with g0\n@target G0.S0\n@type xy\n' + ''.join('%g %g\n' % (t / 4. + .5, .75 + (t + rng.randint(0, 3)) / 4.) for t in range(0, 8)) + '&\n')
    os.makedirs(os.path.join(root, 'out'))


def contents(root):
    out = []
    for p, ds, fs in os.walk(root):
        for f in fs:
            q = os.path.join(p, f)
            with open(q, 'rb') as fp: raw = fp.read()
            # comments hold dates and the names of folders
            if raw[:1] == b'#': raw = b'\n'.join(l for l in raw.split(b'\n') if not l.startswith(b'#'))
            out.append([os.path.relpath(q, root), hashlib.md5(raw).hexdigest()[:12]])
        if p != root and not fs: out.append([os.path.relpath(p, root) + '/', ''])
    return sorted(out)


def in_dir(root, fn):
    """Run fn in the folder: printed lines, exception name, files, value."""
    plt.close('all')
    matplotlib.rcParams.update(_rc)
    matplotlib.rcParams['svg.hashsalt'] = 'x'
    os.chdir(root)
    out, err = io.StringIO(), io.StringIO()
    def job():
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
            return fn()
    value, exc = call(job)
    os.chdir('/')
    plt.close('all')
    lines = [l.rstrip() for l in re.split('[\r\n]', out.getvalue().replace(root, '<root>'))]
    return value, dict(out=[l for l in lines if l], exc=exc, files=contents(root))


ALONE = """
import json, sys, importlib
mod, name, args, kw = json.loads(sys.stdin.read())
sys.stdout = open('/dev/null', 'w')
exc = ''
try:
    fn = getattr(importlib.import_module(mod), name)
    import matplotlib
    matplotlib.rcParams['svg.hashsalt'] = 'x'
    fn(*args, **{k: tuple(v) if isinstance(v, list) and k not in ('contour_levels', 'contour_colours', 'cbarticks', 'cbarticklabels') else v for k, v in kw.items()})
except BaseException as e:
    exc = type(e).__name__
print(exc, file=sys.stderr)
"""


def alone(root, *what):
    """The call in a new interpreter, where nothing but its own module was asked for."""
    p = subprocess.run([sys.executable, '-W', 'ignore', '-c', ALONE], input=json.dumps(what), cwd=root, stdout=subprocess.DEVNULL,
                       stderr=subprocess.PIPE, text=True, timeout=120)
    return dict(out=[], exc=p.stderr.split('\n')[-2] if p.returncode == 0 else 'Stopped', files=contents(root))


def one(d, b):
    base = d.tmp()
    src = os.path.join(base, 'src')
    world(d, src)
    A, B = os.path.join(base, 'a'), os.path.join(base, 'b')
    shutil.copytree(src, A)
    before = contents(A)
    _, c = in_dir(A, lambda: strata.strata.strata.main(args=list(b['argv']), standalone_mode=False))
    kw = {}
    echo = 0
    for k, v in b['kwargs']:
        if k == '*print': echo = int(json.loads(v))
        else: kw[k] = json.loads(v)
    for k, v in kw.items():
        if isinstance(v, list): kw[k] = tuple(v)
    mod, name = b['fn'].split(':')
    args = json.loads(b['args'])
    lib = dict(out=[], exc='', files=[])
    values = []
    if b['works']:
        shutil.copytree(src, B)
        fn = getattr(importlib.import_module(mod), name)
        if name in ('view_flowmap_2d',): kw = {k: (list(v) if k in ('contour_levels', 'contour_colours', 'cbarticks', 'cbarticklabels') and v is not None else v) for k, v in kw.items()}
        value, lib = in_dir(B, lambda: fn(*args, **kw))
        if b['print'] in ('spreading', 'fit') and lib['exc'] == '':
            f = '%.3f %.3f' if b['print'] == 'spreading' else '%f %f'
            try: values = [f % tuple(v) for v in value]
            except Exception: values = ['?']
    plain = lambda r: dict(r, out=[l for l in r['out']])
    d.emit(k='run', cmd=b['cmd'], argv=b['argv'], works=b['works'], print=b['print'], echo=echo, before=before, values=values, cli=plain(c), lib=plain(lib))
    if b['works'] and seen.setdefault(b['fn'], 0) < d.alone:
        seen[b['fn']] += 1
        C = os.path.join(base, 'c')
        shutil.copytree(src, C)
        d.emit(k='alone', cmd=b['cmd'], argv=b['argv'], lib=plain(lib), alone=alone(C, mod, name, args, kw))
    d.drop(base)


seen = {}


def main(d):
    d.alone = 1 if d.a.tier == 'quick' else 12
    for i, b in enumerate(d.behaviours()):
        if d.mine(i): one(d, b)


run('d_cli', main)
