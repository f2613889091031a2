"""Selections of files, jobs on directories, and jobs which are stopped.

P01: what the file finders give, and which maps make up a sampled series.
P02: jobs with numbered outputs, in place or not, and what the directory holds.
P03: jobs which are killed before some file operation, or within a write, and
     histories of such jobs as generated by TLC from GenMapFS.
"""
import os, resource, signal, sys, warnings
import numpy as np
from vlib import *
from strata.average import average
from strata.convert import convert
from strata.contact_line_analysis import extract_contact_line_bins, sample_contact_line_edges
from strata.interface.collect import collect_interfaces
from strata.interface.view import view_interfaces
from strata.interface.sample import sample_interfaces
from strata.interface.angle import interface_contact_angle
from strata.sample_average import sample_average_files
from strata.spreading.collect import collect
from strata.spreading.view import view_spreading
from strata.spreading.fit import fit_spreading_data
from strata.dataformats.write import write
from strata.utils import gen_filenames, find_datamap_files, find_singles_to_singles, find_groups_to_singles

UNIT = 576                     # divisible by products of bundle sizes
WIDTHS = {w: UNIT * 2**(w - 2) for w in range(2, 10)}
NX, NY, D = 14, 4, .5
ODD = ['a[1]', 'x*', 'q?_', '[ab]', 'b b', '%d', '%s', 'a\\b', '$x', '~', '{}', "d'e", 'å', 'Ab', 'X.Y']     # names which mean something elsewhere
GRID = Grid(NX, NY, D, D, .5 * D, .5 * D)


# ------------------------------------------------------------ files and values

def droplet(v, w=8):
    """Three layers of w columns filled with mass v."""
    X, Y = GRID.coords()
    m = np.zeros((NX, NY))
    m[2:2 + w, 0:3] = v
    m = m.ravel()
    one = np.where(m > 0, 1., 0.)
    return {'X': X, 'Y': Y, 'M': m, 'N': m.copy(), 'T': one, 'U': one.copy(), 'V': one.copy()}


def make(path, v, family, fmt='gmx'):
    """A numbered input file which stands for the value v."""
    os.makedirs(os.path.dirname(path), exist_ok=True)
    if family == 'maps':
        write_map(path, GRID, droplet(v), fmt)
    elif family == 'imaps':
        w = [k for k in WIDTHS if WIDTHS[k] == v][0]
        write_map(path, GRID, droplet(5, w), fmt)
    else:
        with open(path, 'w') as fp:
            fp.write('# Interface\n')
            for x, ys in ((-v, (0, .5, 1)), (v, (1, .5, 0))):
                for y in ys:
                    fp.write('%.3f %.3f\n' % (x, y))


def make_bad(path, family):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    if family == 'ifiles':
        with open(path, 'w') as fp:
            fp.write('1 2\n3 4 5\n6\n')
    else:
        write_gmx(path, GRID, droplet(3))
        with open(path, 'rb') as fp:
            raw = fp.read()
        with open(path, 'wb') as fp:
            fp.write(raw[:-37])


def value(raw, path, family):
    """The value a file stands for, as a list; [-1] if it is not a complete one."""
    try:
        if family == 'maps':
            ms = map_masses(raw, path)
            if len(ms) == 0:
                return [0]
            return [enc(ms[0])] if np.all(ms == ms[0]) else [-2]
        if raw[:1] == b'#' or family == 'ifiles':
            rows = [[float(x) for x in l.split()] for l in raw.decode().splitlines() if l.strip() and l[0] != '#']
            if len(rows) != 6 or not raw.endswith(b'\n'):
                return [-1]
            if family == 'ifiles':
                return [enc(rows[-1][0])]
            return [WIDTHS.get(int(round((rows[-1][0] - rows[0][0]) / D)) + 1, -2)]
        ms = map_masses(raw, path)
        return [WIDTHS.get(len(ms) // 3, -2)]
    except Exception:
        return [-1]


def map_masses(raw, path):
    if raw.startswith(b'FORMAT'):
        info, cols = parse_gmx(path)
        m = cols['M']
    elif raw[:2] == b'X ':
        lines = raw.decode().splitlines()
        cols = lines[0].split()
        assert len(cols) == 7 and raw.endswith(b'\n')
        m = np.array([float(l.split()[cols.index('M')]) for l in lines[1:]])
        assert len(m) == NX * NY or len(m) < 40
    else:
        assert len(raw) % 28 == 0 and len(raw) > 0
        m = np.frombuffer(raw, np.float32).reshape(-1, 7)[:, FIELDS.index('M')]
        assert len(m) == NX * NY or len(m) < 40
    return m[m != 0]


def snapshot(root):
    res = {}
    for dp, dn, fn in os.walk(root):
        for f in fn:
            p = os.path.join(dp, f)
            with open(p, 'rb') as fp:
                res[os.path.relpath(p, root)] = fp.read()
    return res


class Room:
    """A scratch directory with the files that jobs work on."""

    def __init__(self, d, family):
        self.d, self.family, self.root = d, family, d.tmp()
        self.inputs = set()

    def path(self, rel):
        return os.path.join(self.root, rel)

    def junk(self, rel, text):
        os.makedirs(os.path.dirname(self.path(rel)) or '.', exist_ok=True)
        with open(self.path(rel), 'w') as fp:
            fp.write(text)

    def links(self, rng):
        """Some files are links to files which lie elsewhere."""
        if rng.random() < .75: return
        os.makedirs(self.path('kept'), exist_ok=True)
        for k, rel in enumerate(sorted(snapshot(self.root))):
            if rng.random() < .4:
                to = self.path('kept/%d' % k)
                os.rename(self.path(rel), to)
                os.symlink(to if rng.random() < .6 else os.path.relpath(to, os.path.dirname(self.path(rel))), self.path(rel))

    def before(self):
        self.pre = snapshot(self.root)
        self.ids = {p: k + 1 for k, p in enumerate(sorted(self.pre))}
        self.prerec = []
        for p in sorted(self.pre):
            v = value(self.pre[p], self.path(p), self.family)
            self.prerec.append(dict(p=p, id=self.ids[p], val=[] if v in ([-1], [-2]) else v, same=[self.ids[p]]))

    def after(self):
        post = snapshot(self.root)
        by = {}
        for p, raw in self.pre.items():
            by.setdefault(raw, []).append(self.ids[p])
        return [dict(p=p, id=0, val=value(raw, self.path(p), self.family), same=by.get(raw, []))
                for p, raw in sorted(post.items())]


# ----------------------------------------------------------------------- jobs

def split(base):
    d, f = os.path.split(base)
    return [d + '/' if d else '', f]


FAMILY = {'average': 'maps', 'convert': 'maps', 'clc': 'maps', 'icollect': 'imaps', 'iview': 'ifiles'}


def jobrec(kind, base, out, begin, end, ext, oext, group, rolling):
    k = kind.replace('_cli', '')
    return dict(base=split(base), out=split(out), begin=begin, end=end, ext=ext, oext=oext, group=group,
                rolling=int(rolling), numbering={'average': 'bundle', 'convert': 'one', 'clc': 'count',
                                                 'icollect': 'one', 'iview': 'bundle'}.get(k, 'single'),
                skips=int(k == 'iview'), anyval=0)


def runner(kind, P, j, ftype='gmx', rng=None):
    """A function which does the job; P maps a base to the path given to the code."""
    base, out = P(''.join(j['base'])), P(''.join(j['out']))
    b, e, g, r = j['begin'], j['end'], j['group'], bool(j['rolling'])
    kw = dict(begin=b, ext=j['ext'])
    ca = ['-b', b, '--ext', j['ext']]
    if e != -1:
        kw['end'] = e
        ca += ['-e', e]
    roll = ['--rolling'] if r else []
    if kind == 'average':
        return lambda: average(base, out, g, rolling=r, quiet=True, **kw)
    if kind == 'average_cli':
        return lambda: cli('average', base, out, g, *(ca + roll))
    if kind == 'convert':
        if j['oext'] != j['ext']:
            kw['outext'] = j['oext']
        return lambda: convert(base, out, ftype=ftype, quiet=True, **kw)
    if kind == 'convert_cli':
        return lambda: cli('convert', base, out, '--ftype', ftype, *ca)
    clkw = dict(cutoff=.5, cutoff_radius=.6, extract_area=(1., 1.))
    if kind == 'clc':
        return lambda: extract_contact_line_bins(base, out, average=g, rolling=r, quiet=True, **dict(kw, **clkw))
    if kind == 'clc_cli':
        return lambda: cli('contact-line', 'collect', base, out, '-av', g, '-co', .5, '-cr', .6, *(ca + roll))
    if kind == 'icollect':
        if j['oext'] != '.xvg' or rng.random() < .5:
            kw['outext'] = j['oext']
        rec = rng.choice([None, 'zero', 'com'])
        return lambda: collect_interfaces(base, out, rec, quiet=True, **kw)
    if kind == 'icollect_cli':
        return lambda: cli('interface', 'collect', base, out, *ca)
    if kind == 'iview':
        return lambda: view_interfaces(base, average=g, save_xvg=out, show=False, quiet=True, **kw)
    if kind == 'iview_cli':
        return lambda: cli('interface', 'view', base, '-av', g, '-x', out, '--noshow', *ca)
    raise ValueError(kind)


def do(fn):
    r, exc = call(fn)
    if not exc and isinstance(r, tuple) and len(r) == 2 and isinstance(r[1], str):
        exc = r[1]                # from the command line
    return exc


MUTATING = {'os.rename', 'os.mkdir', 'os.remove', 'os.rmdir', 'os.link', 'os.symlink', 'os.truncate',
            'shutil.move', 'shutil.copyfile', 'shutil.rmtree'}


def stopped(fn, root, at, cut, soft):
    """Do the job in a child which dies before its at:th file operation, or which
    cannot make any file longer than cut bytes.  Returns whether it was stopped."""
    sys.stdout.flush()
    pid = os.fork()
    if pid == 0:
        code = 3
        try:
            if cut:
                signal.signal(signal.SIGXFSZ, signal.SIG_IGN if soft else signal.SIG_DFL)
                resource.setrlimit(resource.RLIMIT_FSIZE, (cut, cut))
            n = [0]

            def hook(event, args):
                if event == 'open':
                    p, mode, flags = args
                    hit = isinstance(p, (str, bytes)) and bool((flags or 0) & (os.O_WRONLY | os.O_RDWR | os.O_CREAT))
                    p = [p]
                else:
                    hit, p = event in MUTATING, args[:2]
                if hit and any(isinstance(q, (str, bytes)) and os.path.realpath(os.fsdecode(q)).startswith(root + os.sep) for q in p):
                    n[0] += 1
                    if at and n[0] >= at:
                        os._exit(9)
            sys.addaudithook(hook)
            exc = do(fn)
            code = 4 if exc else 0
        except BaseException:
            code = 5
        finally:
            os._exit(code)
    _, st = os.waitpid(pid, 0)
    # numpy can lose the end of a file without raising when a write fails, so
    # nothing is said about jobs whose writes were limited but did not fail
    if os.WIFSIGNALED(st) or cut:
        return True
    return os.WEXITSTATUS(st) != 0


# ------------------------------------------------------------------------ P01

def finder(d):
    rng = d.rng
    root = d.tmp()
    dirs = ['', 's/', 's/t/'] if rng.random() < .8 else ['s[1]/', 's*/t/', 'a b/']
    base = rng.choice(dirs) + rng.choice(['a', 'in_', '1', 'x.y', ''] if rng.random() < .75 else ODD)
    ext = rng.choice(['.dat', '.dat', '.xvg', '', '.d'])
    oext = rng.choice([ext, '.out', '.xvg', ''])
    big = rng.random() < .12
    b0 = rng.choice([99997, 99999, 9998, 998]) if big else rng.choice([0, 1, 1, 2, 3, 8])
    nums = [b0 + k for k in range(rng.randint(0, 9)) if rng.random() < .85]
    names = set(base + '%05d' % n + ext for n in nums)
    for n in list(nums) + [b0]:              # look alikes
        for t in ('%d', '%04d', '%06d', '%05d.bak', ' %05d', '%05dx', '#%05d'):
            if rng.random() < .1:
                names.add(base + t % n + ext)
        if rng.random() < .1: names.add(base + '%05d' % n + '.other')
        if rng.random() < .1: names.add(base.upper() + '_%05d' % n + ext)
        if rng.random() < .1: names.add(os.path.join(os.path.dirname(base), '#%s%05d%s.1#' % (os.path.basename(base), n, ext)))
    names = {n for n in names if os.path.basename(n) and n[-1] != '/'}
    for n in names:
        p = os.path.join(root, n)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        if not os.path.isdir(p):
            open(p, 'w').close()
    os.makedirs(os.path.join(root, os.path.dirname(base)), exist_ok=True)
    names = sorted(n for n in names if os.path.isfile(os.path.join(root, n)))
    begin = rng.choice([b0, b0, b0, b0 + 1, max(0, b0 - 1), b0 + 3, 1])
    end = rng.choice([-1, -1, begin + rng.randint(-2, 9), begin, b0 + 3])
    end = -1 if end < 0 else end
    group = rng.randint(1, 5)
    rolling = rng.random() < .5
    how = rng.choice(['singles', 'groups', 'groups', 'pairs', 'gpairs', 'names'])
    if how in ('singles', 'pairs', 'names'):
        group, rolling = 1, False
    out = rng.choice(dirs) + rng.choice(['b', base.split('/')[-1] or 'c', '0'])
    kw = dict(begin=begin, ext=ext)
    if rng.random() < .3 and begin == 1: del kw['begin']
    if rng.random() < .3 and ext == '.dat': del kw['ext']
    end_kw = dict(kw)
    if end != -1 or rng.random() < .3: end_kw['end'] = np.inf if end == -1 else end
    full = lambda p: os.path.join(root, p)
    rel = lambda p: os.path.relpath(p, root) if isinstance(p, str) and p.startswith(root + '/') else 'odd:' + repr(p)
    lim = 12
    absolute = rng.random() < .6
    if not absolute:
        full = lambda p: p
        rel = lambda p: p if isinstance(p, str) else 'odd:' + repr(p)
    if out and oext != ext or rng.random() < .5:
        pair_kw = dict(end_kw, outext=oext)
    else:
        pair_kw, oext = end_kw, ext

    def work():
        if how == 'singles': return [rel(p) for p in find_datamap_files(full(base), **end_kw)]
        if how == 'groups': return [[rel(p) for p in q] for q in find_datamap_files(full(base), group=group, rolling=rolling, **end_kw)]
        if how == 'pairs': return [[rel(p), rel(q)] for p, q in find_singles_to_singles(full(base), full(out), **pair_kw)]
        if how == 'gpairs': return [[[rel(p) for p in g], rel(q)] for g, q in find_groups_to_singles(full(base), full(out), group, rolling, **pair_kw)]
        res = []
        for p in gen_filenames(full(base), **end_kw):
            res.append(rel(p))
            if len(res) >= lim: break
        return res
    os.chdir(root)
    with warnings.catch_warnings(record=True) as ws:
        warnings.simplefilter('always')
        got, exc = call(work)
    os.chdir('/')
    warned = int(any(issubclass(w.category, UserWarning) and not issubclass(w.category, DeprecationWarning) for w in ws))
    j = dict(base=split(base), out=split(out), begin=begin, end=end, ext=ext, oext=oext, group=group, rolling=int(rolling),
             numbering='one' if how == 'pairs' else 'bundle')
    d.emit(k='finder', how=how, names=names, j=j, got=got or [], exc=exc, warned=warned, limit=lim)
    d.drop(root)


def populate(room, rng, base, ext, begin, family, fmt='gmx', holes=.1, bad=.0, nmax=8):
    n = rng.randint(1, nmax)
    vals = list(WIDTHS.values())
    rng.shuffle(vals)
    for k in range(n):
        if rng.random() < holes:
            continue
        p = room.path('%s%05d%s' % (base, begin + k, ext))
        if rng.random() < bad:
            make_bad(p, family)
        else:
            make(p, vals[k], family, fmt)
    if rng.random() < .3:
        make(room.path('%s%d%s' % (base, begin, ext)), vals[0], family, fmt)


def series(d):
    rng = d.rng
    kind = rng.choice(['sample', 'sample', 'isample', 'iangle', 'scollect', 'clsample'])
    family = {'sample': 'maps', 'clsample': 'maps', 'isample': 'ifiles', 'iangle': 'ifiles', 'scollect': 'imaps'}[kind]
    ext = rng.choice(['.dat', '.xvg', '.m'])
    base = rng.choice(['', 's/', 's/', 's[1]/']) + rng.choice(['a', 'in_', rng.choice(ODD)])
    b0 = rng.choice([0, 1, 1, 2, 99998])
    room = Room(d, family)
    populate(room, rng, base, ext, b0, family, rng.choice(['gmx', 'gmx', 'simple', 'simple_plain']))
    begin = max(0, b0 + rng.choice([0, 0, 0, 1, 2, -1]))
    end = rng.choice([-1, -1, begin + rng.randint(0, 6)])
    g, rolling = 1, False
    if kind == 'clsample':
        g, rolling = rng.choice([1, 2, 3]), rng.random() < .4
    j = dict(base=split(base), out=['', 'o'], begin=begin, end=end, ext=ext, oext='', group=g, rolling=int(rolling), numbering='single')
    kw = dict(begin=begin, ext=ext, quiet=True)
    if end != -1: kw['end'] = end
    room.before()
    P = room.path(base)
    got, exc = [], ''
    if kind == 'sample':
        r, exc = call(sample_average_files, P, ['M'], cutoff=.5, cutoff_label='M', verbose=False, **kw)
        if not exc: got = encs(r[1][0])
    elif kind == 'isample':
        r, exc = call(sample_interfaces, P, 'area', show=False, **kw)
        if not exc: got = [v // 2 if v % 2 == 0 else BAD for v in encs(r[1])]
    elif kind == 'iangle':
        # the segment angle gives the half width, as the height is one
        r, exc = call(interface_contact_angle, P, fit=True, show=False, **kw)
        if not exc: got = encs(1. / np.tan(np.radians(np.array(r[1]['fit'])) / 2)) if len(r[1]['fit']) else []
    elif kind == 'scollect':
        r, exc = call(collect, P, floor=0., **kw)
        if not exc: got = [WIDTHS.get(int(round(2 * x / D)) + 1, BAD) for x in r['r']]
    else:
        r, exc = call(sample_contact_line_edges, P, ['M'], average=g, rolling=rolling, cutoff=.5, cutoff_radius=.6,
                      extract_area=(1., 1.), **kw)
        if not exc: got = encs([v[0] for v in r[1][0]])
    d.emit(k='series', kind=kind, pre=room.prerec, j=j, got=got, exc=exc, maybe=1)
    d.drop(room.root)


# ------------------------------------------------------------------- P02, P03

def some_job(d, rng, kinds=None):
    kind = rng.choice(kinds or ['average', 'average', 'average_cli', 'convert', 'convert_cli', 'clc', 'clc_cli',
                                'icollect', 'icollect_cli', 'iview', 'iview_cli'])
    k = kind.replace('_cli', '')
    family = FAMILY[k]
    ext = rng.choice(['.dat', '.dat', '.m', '.xvg'])
    if family == 'ifiles' and rng.random() < .6: ext = '.xvg'
    oext = ext
    if k == 'icollect':
        oext = '.xvg' if kind.endswith('_cli') else rng.choice(['.xvg', '.xvg', ext, '.o'])
    base = rng.choice(['', '', 's/']) + rng.choice(['a', 'in_', 'd.e', rng.choice(ODD)])
    out = base if rng.random() < .4 else rng.choice(['', 's/', 'new/', 'new/er/']) + rng.choice(['b', 'out_', os.path.basename(base), rng.choice(ODD)])
    b0 = rng.choice([0, 1, 1, 1, 2, 3, 10, 99998])
    fmt, ftype = 'gmx', 'gmx'
    if k in ('average', 'convert', 'clc'):
        fmt = rng.choice(['gmx', 'gmx', 'simple', 'simple_plain'])
    if k == 'convert':
        ftype = rng.choice(['gmx', 'gmx', 'simple', 'simple_plain'])
        if kind == 'convert' and ftype == 'gmx' and rng.random() < .3: oext = '.c'
    g, rolling = 1, False
    if k in ('average', 'clc', 'iview'):
        g = rng.choice([1, 2, 2, 3, 4])
        rolling = k != 'iview' and rng.random() < .35
    room = Room(d, family)
    populate(room, rng, base, ext, b0, family, fmt, .05, .06)
    begin = max(0, b0 + rng.choice([0, 0, 0, 1, 2, -1]))
    end = rng.choice([-1, -1, begin + rng.randint(0, 6)])
    j = jobrec(kind, base, out, begin, end, ext, oext, g, rolling)
    # files in the way of the outputs, and backups from before
    for n in range(max(0, begin // g - 1), begin // g + 4):
        p = '%s%05d%s' % (out, n, oext)
        if rng.random() < .2 and not os.path.exists(room.path(p)) and p.rsplit('/', 1)[0] != 'new':
            # never as a further input
            if not (out == base and oext == ext):
                room.junk(p, 'old %d\n' % n)
        many = rng.choice([9, 10, 12, 31, 100]) if rng.random() < .02 else 0
        for q in (1, 2, 3, 5) if not many else range(1, many + 1):
            if many or rng.random() < .12:
                dn, fn = os.path.split(p)
                room.junk(os.path.join(dn, '#%s.%d#' % (fn, q)), 'bak %d %d\n' % (n, q))
    room.links(rng)
    return room, kind, j, ftype


def job_event(d, room, kind, j, ftype, stop=None):
    rng = d.rng
    relative = rng.random() < .4
    os.chdir(room.root if relative else '/')
    P = (lambda p: p) if relative else room.path
    fn = runner(kind, P, j, ftype, rng)
    room.before()
    st, exc = 0, ''
    if stop is None:
        exc = do(fn)
    else:
        st = int(stopped(fn, room.root, *stop))
    os.chdir('/')
    d.emit(k='job', kind=kind, ftype=ftype, limited=int(bool(stop and stop[1])), j=j, pre=room.prerec, post=room.after(), exc=exc, stopped=st)


def writers(d):
    """Jobs with a single output file, stopped or not."""
    rng = d.rng
    kind = rng.choice(['sample', 'clsample', 'isample', 'iangle', 'scollect', 'sview', 'sfit', 'gmx', 'simple', 'plain', 'generic'])
    family = 'maps' if kind in ('sample', 'clsample') else 'imaps' if kind == 'scollect' else 'ifiles'
    room = Room(d, family)
    base = 'in'
    for k in range(rng.randint(1, 3)):
        make(room.path('in%05d.dat' % (k + 1)), UNIT * 2**k, family)
    out = [rng.choice(['', 's/', 'new/x/']), rng.choice(['o.xvg', 'out', '#o#', 'o.1'])]
    o = ''.join(out)
    if rng.random() < .7 and not out[0].startswith('new'): room.junk(o, 'precious %d\n' % rng.randint(0, 99))
    many = rng.choice([9, 10, 12, 31, 100]) if rng.random() < .08 else 0
    for q in (1, 2, 3, 4) if not many else range(1, many + 1):
        if (many or rng.random() < .3) and not out[0].startswith('new'):
            room.junk(out[0] + '#%s.%d#' % (out[1], q), 'bak %d\n' % q)
    room.junk('other', 'other\n')
    spr = room.path('spr.xvg')
    with open(spr, 'w') as fp:
        for t in range(1, 6):
            fp.write('%.3f %.3f\n' % (t, 2. * t))
    room.links(rng)
    relative = rng.random() < .4
    os.chdir(room.root if relative else '/')
    O = o if relative else room.path(o)
    B = room.path(base)
    g = GRID
    data = droplet(4)
    info = dict(shape=(g.nx, g.ny), spacing=(g.dx, g.dy), origin=g.corner, num_bins=g.nx * g.ny)
    fn = {'sample': lambda: sample_average_files(B, ['M'], output=O, quiet=True, verbose=False),
          'clsample': lambda: sample_contact_line_edges(B, ['M'], save=O, cutoff=.5, cutoff_radius=.6, extract_area=(1., 1.), quiet=True),
          'isample': lambda: sample_interfaces(B, rng.choice(['area', 'length']), save_xvg=O, ext='.dat', show=False, quiet=True),
          'iangle': lambda: interface_contact_angle(B, height=.5, save_xvg=O, ext='.dat', show=False, quiet=True),
          'scollect': lambda: collect(B, save=O, floor=0., quiet=True),
          'sview': lambda: view_spreading([spr], save_xvg=O, show=False),
          'sfit': lambda: fit_spreading_data([spr], save_xvg=O, show=False),
          'gmx': lambda: write(O, data, info, ftype='gmx'),
          'generic': lambda: write(O, data, info),
          'simple': lambda: write(O, data, info, ftype='simple'),
          'plain': lambda: write(O, data, info, ftype='simple_plain')}[kind]
    j = jobrec('single', 'in', '', 1, -1, '.dat', '', 1, 0)
    j.update(out=out, anyval=1, numbering='single')
    room.before()
    r = rng.random()
    st, exc = 0, ''
    if r < .5:
        exc = do(fn)
    elif r < .75:
        st = int(stopped(fn, room.root, rng.randint(1, 6), 0, False))
    else:
        st = int(stopped(fn, room.root, 0, rng.choice([1, 10, 60, 120, 300]), rng.random() < .5))
    os.chdir('/')
    d.emit(k='job', kind=kind, ftype=kind, limited=0, j=j, pre=room.prerec, post=room.after(), exc=exc, stopped=st)
    d.drop(room.root)


def replay(d, beh):
    """A history generated by TLC: three jobs in one directory."""
    rng = d.rng
    room = Room(d, 'maps')
    for k, n in enumerate(sorted(beh['files'])):
        make(room.path('a%05d.dat' % n), UNIT * 2**k, 'maps')
    for h in beh['jobs']:
        k = h['kind'].replace('_cli', '')
        g, r = (1, 0) if k == 'convert' else (h['group'], h['rolling'])
        j = jobrec(h['kind'], 'a', h['out'], h['begin'], h['end'], '.dat', '.dat', g, r)
        stop = None
        if h['cut']: stop = (0, h['cut'], rng.random() < .5)
        elif h['crash']: stop = (h['crash'], 0, False)
        job_event(d, room, h['kind'], j, 'gmx', stop)
    d.drop(room.root)


def main(d):
    p = d.a.prop
    if p == 'P01':
        for k in range(d.a.count):
            (series if k % 3 == 0 else finder)(d)
    elif p == 'P02':
        for k in range(d.a.count):
            room, kind, j, ftype = some_job(d, d.rng)
            job_event(d, room, kind, j, ftype)
            d.drop(room.root)
    else:
        behs = d.behaviours()
        for i, b in enumerate(behs):
            if d.mine(i):
                replay(d, b)
        for k in range(d.a.count):
            if k % 2:
                writers(d)
            else:
                room, kind, j, ftype = some_job(d, d.rng)
                r = d.rng.random()
                stop = None
                if r < .6: stop = (d.rng.randint(1, 8), 0, False)
                elif r < .9: stop = (0, d.rng.choice([1, 60, 100, 200, 300, 500, 900]), d.rng.random() < .5)
                job_event(d, room, kind, j, ftype, stop)
                d.drop(room.root)


run('files', main)
