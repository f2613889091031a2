#!/usr/bin/env python3
"""Decide one property: check.py <property id>.

1. TLC explores the design specification (the MC configurations) exhaustively
   within the constants of the configuration.
2. Optionally TLC generates behaviours of the specification, which the driver
   replays in the real code.
3. The driver runs the real code of /repo and records what it does.
4. TLC validates the recorded events against the trace specification; every
   event it refuses is reported with the names of the failing clauses.

Exit 0: held. Exit 1 and a VIOLATION line: broken. Exit 2: machinery error.
"""
import concurrent.futures as cf, json, os, re, shutil, signal, subprocess, sys, tempfile, time

VERIF = os.path.realpath(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
REPO = os.environ.get('VERIF_REPO', '/repo')
SPEC = os.path.join(VERIF, 'spec')
sys.path.insert(0, os.path.join(VERIF, 'bin'))
from registry import CHECKS

CP = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
PY = '/opt/venv/bin/python'
CORES = 8


class Machinery(Exception):
    pass


def tlc(module, cfg, scratch, extra_env=None, workers=1, timeout=800, args=(), heap='2g'):
    meta = tempfile.mkdtemp(prefix='tlc_', dir=scratch)
    cmd = ['java', '-XX:+UseParallelGC' if workers > 1 else '-XX:+UseSerialGC', '-Xss8m', '-Xmx' + heap,
           '-Djava.io.tmpdir=' + meta, '-DTLA-Library=' + SPEC, '-cp', CP, 'tlc2.TLC',
           '-metadir', meta, '-workers', str(workers), '-deadlock' if False else '-noGenerateSpecTE',
           '-config', os.path.join(SPEC, cfg)] + list(args) + [os.path.join(SPEC, module + '.tla')]
    env = dict(os.environ)
    env.update(extra_env or {})
    try:
        p = subprocess.run(cmd, cwd=meta, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           timeout=timeout, text=True, errors='replace')
    except subprocess.TimeoutExpired:
        raise Machinery('TLC timed out on %s %s' % (module, cfg))
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    return p.returncode, p.stdout


def counts(out):
    m = re.findall(r'(\d[\d,]*) states generated,? ?\(?.*?(\d[\d,]*) distinct states found', out)
    if m:
        return int(m[-1][0].replace(',', '')), int(m[-1][1].replace(',', ''))
    m = re.findall(r'The number of states generated: ([\d,]+)', out)      # -simulate
    if m:
        n = int(m[-1].replace(',', ''))
        return n, n
    return 0, 0


def run_mc(item, scratch, tier):
    module, cfg = item['module'], item['cfg']
    if tier == 'thorough' and item.get('thorough_cfg'):
        cfg = item['thorough_cfg']
    t = time.time()
    rc, out = tlc(module, cfg, scratch, workers=item.get('workers', 2), heap=item.get('heap', '4g'),
                  args=item.get('args', ()), timeout=1e5 if tier == 'thorough' else 800)
    gen, dist = counts(out)
    if rc == 0 and gen > 0:
        return dict(module=module, cfg=cfg, generated=gen, distinct=dist, ok=True, s=round(time.time() - t, 1))
    if 'is violated' in out or 'Temporal properties were violated' in out or 'Deadlock reached' in out:
        return dict(module=module, cfg=cfg, generated=gen, distinct=dist, ok=False, out=out, s=round(time.time() - t, 1))
    raise Machinery('TLC failed on %s %s (rc %d):\n%s' % (module, cfg, rc, out[-3000:]))


def run_gen(item, scratch, tier, seed):
    """Generate behaviours: the module prints lines BEH <json> (quoted string)."""
    num = item['thorough_num'] if tier == 'thorough' else item['num']
    cfg = item['thorough_cfg'] if tier == 'thorough' and item.get('thorough_cfg') else item['cfg']
    simulate = ['-simulate', 'num=%d' % num, '-depth', str(item['depth'])] if num else []      # num=0: all behaviours
    rc, out = tlc(item['module'], cfg, scratch, workers=1, args=simulate + ['-seed', str(seed)], timeout=600)
    path = os.path.join(scratch, 'beh_%s.ndjson' % item['module'])
    n = 0
    seen = set()
    with open(path, 'w') as fp:
        for line in out.splitlines():
            if line.startswith('"BEH '):
                s = json.loads(line)[4:]
                if s not in seen:
                    seen.add(s)
                    fp.write(s + '\n')
                    n += 1
    if n == 0:
        raise Machinery('no behaviours generated by %s:\n%s' % (item['module'], out[-2000:]))
    gen, _ = counts(out)
    return path, n, gen


def run_shard(chk, prop, k, shards, count, scratch, tier, seed, beh, n=0):
    trace = os.path.join(scratch, 'trace%d_%d.ndjson' % (n, k))
    env = dict(os.environ)
    # numpy.loadtxt (1.23) writes one character beyond its buffer for some lines; the allocator of the C
    # library leaves room there, that of Python does not
    env.update(PYTHONMALLOC='malloc', PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', MPLBACKEND='Agg', MPLCONFIGDIR='/opt/mplconfig',
               PYTHONPATH=REPO + ':' + os.path.join(VERIF, 'harness'), VERIF_SCRATCH=scratch,
               OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', MKL_NUM_THREADS='1', LC_ALL='C.UTF-8')
    cmd = [PY, '-W', 'ignore', os.path.join(VERIF, 'harness', chk['driver'] + '.py'), '--seed', str(seed),
           '--shard', str(k), '--shards', str(shards), '--count', str(count), '--tier', tier, '--out', trace,
           '--prop', chk.get('mode', prop)]
    if beh:
        cmd += ['--behaviours', beh]
    t0 = time.time()
    crash = []
    for attempt in (1, 2):
        try:
            p = subprocess.run(cmd, cwd=scratch, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                               errors='replace', timeout=1e5 if tier == "thorough" else 600)
        except subprocess.TimeoutExpired:
            raise Machinery('driver timed out')
        if p.returncode >= 0:
            break               # else it was killed from outside: once more
    t1 = time.time()
    if p.returncode != 0:
        # The code under test cannot even be imported or driven
        if re.search(r'Error', p.stdout) and import_broken(env):
            return dict(events=[{'k': 'import', 'out': p.stdout[-1500:]}], fails=[(1, ['Importable'])], gen=0, dist=0)
        if p.returncode != 1 or 'Traceback' not in p.stdout or re.search(r'MemoryError|No space left|KeyboardInterrupt', p.stdout) \
                or not os.path.exists(trace):
            raise Machinery('driver failed (%d):\n' % p.returncode + p.stdout[-3000:])
        # What the code gave could not even be recorded: no behaviour of the specification
        sys.stderr.write('driver failed:\n' + p.stdout[-1500:] + '\n')
        crash = [json.dumps({'k': 'unrecordable', 'out': p.stdout[-1500:]}) + '\n']
    with open(trace) as fp:
        lines = [l for l in fp if l.strip()]
    if crash and lines and not lines[-1].endswith('\n'):
        lines.pop()
    lines += crash
    if not lines:
        return dict(events=[], fails=[], gen=0, dist=0, td=t1 - t0, tt=0)
    fails, gen, dist = [], 0, 0
    start = 0
    rounds = 0
    # If an event cannot be evaluated at all by the specification it is reported
    # and validation goes on behind it.
    while start < len(lines):
        part = os.path.join(scratch, 'part%d_%d.ndjson' % (n, k))
        with open(part, 'w') as fp:
            fp.writelines(lines[start:])
        rc, out = tlc(chk['trace'], chk.get('trace_cfg', 'Trace.cfg'), scratch, {'TRACE': part}, workers=1,
                      timeout=1e5 if tier == 'thorough' else 700)
        g, d = counts(out)
        gen += g
        dist += d
        seen = set()
        for m in re.finditer(r'^"FAIL (\d+) \{(.*)\}"\s*$', out, re.M):
            i = int(m.group(1))
            if (i, m.group(2)) in seen:
                continue
            seen.add((i, m.group(2)))
            fails.append((start + i, re.findall(r'\\"([^"\\]+)\\"', m.group(2))))
        done = re.search(r'^"CONSUMED (\d+)"\s*$', out, re.M)
        if done and int(done.group(1)) == len(lines) - start and rc == 0:
            start = len(lines)
            break
        # Evaluation error: find the event
        m = re.findall(r'^"AT (\d+)"\s*$', out, re.M)
        at = int(m[-1]) if m else 0
        rounds += 1
        if at == 0 or 'Parsing or semantic analysis failed' in out:
            raise Machinery('trace validation did not finish (rc %d):\n%s' % (rc, out[-3000:]))
        fails.append((start + at, ['Unexplainable']))
        sys.stderr.write('event %d could not be evaluated:\n%s\n' % (start + at, out[-1500:]))
        start += at
        if rounds > 20:
            break                   # enough of them have been found
    return dict(events=[json.loads(l) for l in lines], fails=fails, gen=gen, dist=dist, td=t1 - t0, tt=time.time() - t1)


def import_broken(env):
    p = subprocess.run([PY, '-W', 'ignore', '-c', 'import strata.strata'], env=env, stdout=subprocess.DEVNULL,
                       stderr=subprocess.DEVNULL, cwd='/')
    return p.returncode != 0


def known():
    res = []
    try:
        with open(os.path.join(VERIF, 'KNOWN_FINDINGS.jsonl')) as fp:
            for l in fp:
                if l.strip():
                    r = json.loads(l)
                    if r.get('status') == 'known':
                        res.append(r)
    except FileNotFoundError:
        pass
    return res


def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--thorough' in sys.argv:
        tier = 'thorough'
    if tier != 'thorough':
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    chk = CHECKS[prop]
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix='verif_%s_' % prop)
    os.chmod(scratch, 0o755)
    viol = []
    try:
        with cf.ThreadPoolExecutor(CORES) as ex:
            mcs = [ex.submit(run_mc, m, scratch, tier) for m in chk.get('mc', [])
                   if tier == 'thorough' or not m.get('thorough_only')]
            behs = None
            gens = 0
            if chk.get('gen'):
                behs, nbeh, gens = run_gen(chk['gen'], scratch, tier, seed)
            futs = []
            for n, part in enumerate([chk] + chk.get('also', [])):
                total = part['thorough'] if tier == 'thorough' else part['quick']
                shards = part.get('shards', CORES)
                if tier == 'thorough':
                    shards = max(shards, part.get('thorough_shards', 16))
                count = max(1, -(-total // shards))
                futs += [ex.submit(run_shard, part, prop, k, shards, count, scratch, tier, seed, behs if n == 0 else None, n)
                         for k in range(shards)]
            shard_res = [f.result() for f in futs]
            mc_res = [f.result() for f in mcs]
    except Machinery as e:
        print('ERROR property=%s %s' % (prop, e))
        sys.exit(2)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)

    kf = {r['clause']: r for r in known() if r['property'] == prop}
    kf_hits = {}
    events = 0
    for r in shard_res:
        events += len(r['events'])
        for i, cl in r['fails']:
            listed = [c for c in cl if c in kf]
            rest = [c for c in cl if c not in kf]
            for c in listed:
                kf_hits.setdefault(c, 0)
                kf_hits[c] += 1
            if rest:
                viol.append(dict(clauses=rest, event=r['events'][i - 1]))
    for m in mc_res:
        if not m['ok']:
            viol.append(dict(clauses=['design:' + m['cfg']], event={'tlc': m['out'][-6000:]}))

    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    kinds = {}
    samples = []
    distinct = set()
    for r in shard_res:
        for e in r['events']:
            k = str(e.get('k', '?'))
            kinds[k] = kinds.get(k, 0) + 1
            if kinds[k] <= 1 and len(json.dumps(e)) < 4000:
                samples.append(e)
            distinct.add(hash(json.dumps(e, sort_keys=True)))
    if not samples:
        samples = [{'k': k, 'n': n} for k, n in kinds.items()]
    ev = dict(property=prop, tier=tier, seed=seed, level='model_checking', coverage=dict(
        states=sum(m['distinct'] for m in mc_res) + sum(r['dist'] for r in shard_res),
        transitions=sum(m['generated'] for m in mc_res) + sum(r['gen'] for r in shard_res) + gens,
        traces_validated_against_impl=events,
        distinct_events=len(distinct), events_per_kind=kinds, samples=samples[:6],
        design_models=[{k: m[k] for k in ('module', 'cfg', 'generated', 'distinct', 'ok', 's')} for m in mc_res],
        known_findings_seen=kf_hits), assumptions=chk.get('assumptions', []),
        wall_s=round(time.time() - t0, 2), violations=len(viol))
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as fp:
        json.dump(ev, fp, indent=1)

    for c in kf_hits:
        print('KNOWN-FINDING: property=%s %s (%d events)' % (prop, kf[c]['what'], kf_hits[c]))
    print('%s: %d events of the real code validated, %d design states, %.1f s (driver max %.1f s, trace TLC max %.1f s)' % (
        prop, events, sum(m['distinct'] for m in mc_res), ev['wall_s'],
        max(r.get('td', 0) for r in shard_res), max(r.get('tt', 0) for r in shard_res)))
    if viol:
        path = os.path.join(VERIF, 'evidence', prop + '.violation.json')
        with open(path, 'w') as fp:
            json.dump(dict(property=prop, seed=seed, tier=tier,
                           replay='VERIF_SEED=%d VERIF_TIER=%s python3 bin/check.py %s' % (seed, tier, prop),
                           violations=viol[:50], total=len(viol)), fp, indent=1)
        cl = {}
        for v in viol:
            for c in v['clauses']:
                cl[c] = cl.get(c, 0) + 1
        print('failing clauses: %s' % cl)
        print('VIOLATION property=%s replay=%s' % (prop, path))
        sys.exit(1)
    if events == 0:
        print('ERROR property=%s no events recorded' % prop)
        sys.exit(2)
    sys.exit(0)


if __name__ == '__main__':
    main()
