"""Common parts of the conformance drivers.

A driver runs the real code of /repo on generated inputs (or on behaviours
generated by TLC from the specification) and writes one JSON object per
observed call into an ndjson trace, which a trace specification in /verif/spec
then judges.  Drivers judge nothing: they only record inputs and outcomes.
"""
import argparse, contextlib, io, json, math, os, random, shutil, signal, sys, tempfile, warnings

import numpy as np

warnings.simplefilter('ignore')

BAD = 2000000000          # stands for NaN, inf, or anything that is not a number
LIM = 1000000000


def enc(x, scale=1):
    """Encode a real number as round(x*scale), BAD if this is not possible."""
    try:
        x = float(x)
    except Exception:
        return BAD
    if not math.isfinite(x):
        return BAD
    r = x * scale
    if abs(r) > LIM:
        return BAD
    return int(round(r))


def encs(xs, scale=1):
    """Encode a sequence of real numbers."""
    try:
        return [enc(x, scale) for x in np.ravel(np.asarray(xs))]
    except Exception:
        return [BAD]


def two(c):
    """Optional cutoff as <<present, twice the cutoff>>.  The values it is compared
    with are integers, for which the next integer is the same cutoff."""
    return [0, 0] if c is None else [1, int(2 * c) if float(2 * c).is_integer() else 2 * math.ceil(c)]


def near(rng, x, eps=1 / 1024, p=.2):
    """The number, or one just beside it."""
    return x if x is None or rng.random() >= p else x + rng.choice([-eps, eps])


class Timeout(Exception):
    pass


hangs = [0]


def _alarm(signum, frame):
    hangs[0] += 1
    raise Timeout()


def _limit(seconds):
    """Once something has hung there is no need to wait as long for the next."""
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, seconds if hangs[0] < 2 else (3 if hangs[0] < 8 else .1))


@contextlib.contextmanager
def silence():
    out, err = sys.stdout, sys.stderr
    sys.stdout, sys.stderr = io.StringIO(), io.StringIO()
    try:
        yield sys.stdout
    finally:
        sys.stdout, sys.stderr = out, err


def call(fn, *args, timeout=30, **kwargs):
    """Call fn, return (value, exception name); '' if none was raised."""
    _limit(timeout)
    try:
        with silence():
            return fn(*args, **kwargs), ''
    except KeyboardInterrupt:
        raise
    except SystemExit as e:
        return None, 'SystemExit'
    except BaseException as e:
        return None, type(e).__name__
    finally:
        signal.alarm(0)


def cli(*args, timeout=60):
    """Run the command line interface, return (output, exception name)."""
    from click.testing import CliRunner
    import strata.strata
    _limit(timeout)
    try:
        r = CliRunner().invoke(strata.strata.strata, [str(a) for a in args])
    except BaseException as e:
        return '', type(e).__name__
    finally:
        signal.alarm(0)
    if r.exception is not None and not (isinstance(r.exception, SystemExit) and r.exit_code == 0):
        return r.output, type(r.exception).__name__
    return r.output, ''


class Driver:
    """One shard of one driver: options, random source, scratch, and trace."""

    def __init__(self, name):
        p = argparse.ArgumentParser()
        p.add_argument('--seed', type=int, default=1)
        p.add_argument('--shard', type=int, default=0)
        p.add_argument('--shards', type=int, default=1)
        p.add_argument('--count', type=int, default=50)
        p.add_argument('--tier', default='quick')
        p.add_argument('--out', required=True)
        p.add_argument('--behaviours', default='')
        p.add_argument('--prop', default='')
        a = p.parse_args()
        self.a = a
        self.rng = random.Random('%s/%s/%d/%d' % (name, a.prop, a.seed, a.shard))
        self.np = np.random.RandomState(self.rng.randrange(2**31))
        self.fp = open(a.out, 'w')
        self.n = 0
        self.root = os.path.realpath(tempfile.mkdtemp(prefix='vd_', dir=os.environ.get('VERIF_SCRATCH') or None))

    @property
    def thorough(self):
        return self.a.tier == 'thorough'

    def mine(self, i):
        """Whether item number i of an enumeration belongs to this shard."""
        return i % self.a.shards == self.a.shard

    def tmp(self):
        # names are used again: what is at a path now is not what was there before
        k = 1
        while os.path.lexists(os.path.join(self.root, 'd%d' % k)): k += 1
        d = os.path.join(self.root, 'd%d' % k)
        os.mkdir(d)
        return d

    def drop(self, d):
        assert d.startswith(self.root + os.sep)
        shutil.rmtree(d, ignore_errors=True)

    def emit(self, **ev):
        self.fp.write(json.dumps(ev, allow_nan=False) + '\n')
        self.n += 1

    def behaviours(self):
        with open(self.a.behaviours) as fp:
            return [json.loads(l) for l in fp if l.strip()]

    def close(self):
        self.fp.close()
        os.chdir('/')
        shutil.rmtree(self.root, ignore_errors=True)


def run(name, main):
    d = Driver(name)
    try:
        main(d)
    finally:
        d.close()


# ---------------------------------------------------------------- flow maps

FIELDS = ['X', 'Y', 'N', 'T', 'M', 'U', 'V']


def pick(rng, *xs):
    return xs[rng.randrange(len(xs))]


SPACINGS = [0.25, 0.5, 1.0, 0.125, 2.0, 0.75, 1.5]


class Grid:
    """A regular grid: bin (i, j) has its centre at x0 + i dx, y0 + j dy."""

    def __init__(self, nx, ny, dx, dy, x0, y0):
        self.nx, self.ny, self.dx, self.dy, self.x0, self.y0 = nx, ny, dx, dy, x0, y0

    @property
    def corner(self):
        return (self.x0 - 0.5 * self.dx, self.y0 - 0.5 * self.dy)

    def coords(self):
        x = self.x0 + self.dx * np.arange(self.nx)
        y = self.y0 + self.dy * np.arange(self.ny)
        X, Y = np.meshgrid(x, y, indexing='ij')
        return X.ravel(), Y.ravel()


def rgrid(rng, nmin=1, nmax=6, ox=3, oy=3):
    dx, dy = rng.choice(SPACINGS), rng.choice(SPACINGS)
    return Grid(rng.randint(nmin, nmax), rng.randint(nmin, nmax), dx, dy,
                dx * (0.5 + rng.randint(-ox, ox)) if rng.random() < .7 else rng.randint(-8, 8) * 0.125,
                dy * (0.5 + rng.randint(0, oy)) if rng.random() < .7 else rng.randint(-8, 8) * 0.125)


def rdata(rng, g, zero=0.3, mmax=9, vmax=9):
    """Random small integer data; bins without mass hold nothing at all."""
    n = g.nx * g.ny
    X, Y = g.coords()
    d = {'X': X, 'Y': Y}
    for l in ('M', 'N', 'T', 'U', 'V'):
        d[l] = np.zeros(n)
    for k in range(n):
        if rng.random() >= zero:
            d['M'][k] = rng.randint(1, mmax)
            d['N'][k] = rng.randint(0, mmax) if rng.random() < .3 else rng.randint(1, mmax)
            d['T'][k] = rng.randint(0, vmax)
            d['U'][k] = rng.randint(-vmax, vmax)
            d['V'][k] = rng.randint(-vmax, vmax)
    return d


def write_gmx(path, g, d):
    """Independent writer of the documented GMX_FLOW_1 format."""
    inds = np.where(np.asarray(d['M']) != 0)[0]
    ix, iy = inds // g.ny, inds % g.ny
    with open(path, 'wb') as fp:
        h = "FORMAT GMX_FLOW_1\nORIGIN %.6f %.6f\nSHAPE %d %d\nSPACING %.6f %.6f\nNUMDATA %d\nFIELDS IX IY N T M U V\n" % (
            g.corner + (g.nx, g.ny, g.dx, g.dy, len(inds)))
        fp.write(h.encode() + b"COMMENT generated\n" + b'\0')
        ix.astype(np.uint64).tofile(fp)
        iy.astype(np.uint64).tofile(fp)
        for l in ('N', 'T', 'M', 'U', 'V'):
            np.asarray(d[l])[inds].astype(np.float32).tofile(fp)


def write_simple(path, g, d, binary=True, fields=None):
    """Independent writer of the simple formats.  A plain text file names its columns."""
    fields = fields or FIELDS
    a = np.array([d[l] for l in fields], dtype=np.float32).T
    if binary:
        np.ascontiguousarray(a).tofile(path)
    else:
        with open(path, 'w') as fp:
            fp.write(' '.join(fields) + '\n')
            for row in a:
                fp.write(' '.join('%6f' % v for v in row) + '\n')


def write_map(path, g, d, fmt):
    if fmt == 'gmx':
        write_gmx(path, g, d)
    else:
        write_simple(path, g, d, fmt == 'simple')


def parse_gmx(path):
    """Independent reader of GMX_FLOW files.  Returns dict with header and rows."""
    with open(path, 'rb') as fp:
        raw = fp.read()
    pos = raw.index(b'\0')
    info = {}
    for line in raw[:pos].decode('ascii').splitlines():
        w = line.split()
        if w[0] == 'ORIGIN':
            info['origin'] = (float(w[1]), float(w[2]))
        elif w[0] == 'SHAPE':
            info['shape'] = (int(w[1]), int(w[2]))
        elif w[0] == 'SPACING':
            info['spacing'] = (float(w[1]), float(w[2]))
        elif w[0] == 'NUMDATA':
            n = int(w[1])
        elif w[0] == 'FIELDS':
            fields = w[1:]
    o = pos + 1
    cols = {}
    for f in fields:
        t = np.uint64 if f in ('IX', 'IY') else np.float32
        cols[f] = np.frombuffer(raw, t, n, o)
        o += n * np.dtype(t).itemsize
    info['num'] = n
    info['extra'] = len(raw) - o
    return info, cols


def units(rng, small=True):
    """Units of the fields: what is written is the value times a power of two."""
    if rng.random() < .6: return {l: 1. for l in FIELDS}
    pick = [1., 1., 8., 64.] + ([1 / 16., 1 / 64.] if small else []) + ([2.**-12, 2.**-20] if small == 'tiny' else [])
    f = {l: rng.choice(pick) for l in FIELDS}
    f.update(X=1., Y=1., V=f['U'])
    return f


def in_units(dat, f):
    return {l: np.asarray(v) * f.get(l, 1.) for l, v in dat.items()}


def map_record(path, cs, vs, f={}):
    """A gmx map file as a record of integers for the trace.

    Coordinates and spacing scaled by cs, data values by vs.  Dense x-major rows
    [M, N, T, U, V]; bins that are not stored are zero.  Any oddity is reported
    in the field `odd`, which the specification requires to be empty.
    """
    r = {'nx': 0, 'ny': 0, 'x0': 0, 'y0': 0, 'dx': 0, 'dy': 0, 'num': 0, 'rows': [], 'odd': ''}
    try:
        info, cols = parse_gmx(path)
        nx, ny = info['shape']
        dx, dy = info['spacing']
        r.update(nx=nx, ny=ny, dx=enc(dx, cs), dy=enc(dy, cs), num=info['num'],
                 x0=enc(info['origin'][0] + .5 * dx, cs), y0=enc(info['origin'][1] + .5 * dy, cs))
        if nx < 0 or ny < 0 or nx * ny > 5000:
            r['odd'] = 'shape'
            return r
        rows = [[0, 0, 0, 0, 0] for _ in range(nx * ny)]
        seen = set()
        for k in range(info['num']):
            i, j = int(cols['IX'][k]), int(cols['IY'][k])
            if not (0 <= i < nx and 0 <= j < ny):
                r['odd'] = 'index'
                continue
            if (i, j) in seen:
                r['odd'] = 'duplicate'
            seen.add((i, j))
            rows[i * ny + j] = [enc(cols[l][k] / f.get(l, 1.), vs) for l in ('M', 'N', 'T', 'U', 'V')]
        if info['extra']:
            r['odd'] = 'extra'
        r['rows'] = rows
    except Exception as e:
        r['odd'] = 'unreadable:' + type(e).__name__
    return r


def grid_record(g, cs):
    return {'nx': g.nx, 'ny': g.ny, 'dx': enc(g.dx, cs), 'dy': enc(g.dy, cs),
            'x0': enc(g.x0, cs), 'y0': enc(g.y0, cs)}


def data_rows(d):
    """Input data (integers) as rows [M, N, T, U, V]."""
    return [[int(d[l][k]) for l in ('M', 'N', 'T', 'U', 'V')] for k in range(len(d['M']))]


def other_fields(rng, dat, fmt='gmx'):
    """Numbers, temperatures and flow which have nothing to do with the mass; in
    a GMX_FLOW file a bin without mass has nothing at all."""
    keep = (dat['M'] != 0) | (fmt != 'gmx')
    for l in ('N', 'T', 'U', 'V'):
        dat[l] = np.array([rng.randint(0, 9) for _ in keep], float) * keep
    return dat
