#!/usr/bin/env python3
"""Decides one property: builds the harness against /repo, records executions,
has TLC judge them against the specification (and model-check the closed
models), writes evidence/<id>.json.

exit 0: held; exit 1: violated (VIOLATION line); exit 2: the check itself failed.
"""
import concurrent.futures as cf
import glob, hashlib, json, os, random, re, shutil, subprocess, sys, tempfile, threading, time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
HARNESS = os.path.join(ROOT, 'harness')
SPEC = os.path.join(ROOT, 'spec')
EVID = os.path.join(ROOT, 'evidence')
sys.path.insert(0, os.path.join(ROOT, 'run'))
from jobs import JOBS  # noqa: E402
import hist  # noqa: E402

TLC = ['java', '-XX:+UseSerialGC', '-XX:TieredStopAtLevel=4', '-cp',
       '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar']
WORKERS = int(os.environ.get("VERIF_WORKERS", "7"))


class ToolError(Exception):
    pass


def env():
    e = dict(os.environ)
    e.update(RUSTUP_TOOLCHAIN='stable', CARGO_NET_OFFLINE='true')
    return e


def source_hash():
    h = hashlib.sha256()
    for base in ('src', 'Cargo.toml'):
        p = os.path.join(REPO, base)
        files = [p] if os.path.isfile(p) else sorted(
            os.path.join(d, f) for d, _, fs in os.walk(p) for f in fs)
        for f in files:
            h.update(os.path.relpath(f, REPO).encode())
            with open(f, 'rb') as fh:
                h.update(fh.read())
    return h.hexdigest()


def build():
    target = os.path.join(HARNESS, 'target')
    stamp = os.path.join(target, 'source.sha256')
    want = source_hash()
    have = open(stamp).read() if os.path.exists(stamp) else ''
    if have != want:
        # mtimes are not trusted: force the library to be rebuilt
        for d in glob.glob(os.path.join(target, 'debug', '.fingerprint', 'box2d-rs-*')):
            shutil.rmtree(d, ignore_errors=True)
    r = subprocess.run(['cargo', 'build', '--offline', '--quiet'], cwd=HARNESS, env=env(),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise ToolError('harness build failed:\n' + r.stdout[-4000:])
    os.makedirs(target, exist_ok=True)
    with open(stamp, 'w') as f:
        f.write(want)
    return os.path.join(target, 'debug', 'vharness')


def run_harness(exe, args, out):
    """Returns None or the description of an abnormal end of the code under test."""
    try:
        r = subprocess.run([exe] + args + ['--out', out], stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           text=True, timeout=400)
    except subprocess.TimeoutExpired:
        return 'harness run did not end'
    if r.returncode == 0:
        return None
    if r.returncode == 2:
        raise ToolError('harness: ' + r.stdout[-1000:])
    if os.path.exists(out + '.hang'):
        return 'call does not return: ' + open(out + '.hang').read().strip()[:300]
    return 'process ended abnormally (%d)' % r.returncode


def tlc(module, cfg, extra_env, tmp, args=(), mem='3g', timeout=700):
    md = tempfile.mkdtemp(dir=tmp)
    e = env()
    e.update(extra_env)
    cmd = [TLC[0], '-Xmx' + mem, '-Xss64m', '-XX:-UsePerfData', '-Djava.io.tmpdir=' + md] + TLC[1:] + ['tlc2.TLC', '-metadir', md, '-noGenerateSpecTE', '-config', cfg] + list(args) + [module]
    try:
        r = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise ToolError('TLC did not finish: ' + module)
    finally:
        shutil.rmtree(md, ignore_errors=True)
    m = re.search(r'(\d+) states generated.*?, (\d+) distinct states found', r.stdout.replace('\n', ' '))
    gen, dist = (int(m.group(1)), int(m.group(2))) if m else (0, 0)
    for m in re.finditer(r'(\d+) states generated[^,]*, (\d+) distinct states found', r.stdout):
        gen, dist = int(m.group(1)), int(m.group(2))
    return r.returncode, r.stdout, gen, dist


VIOL = re.compile(r'<<"VIOL", (\d+), (\{.*?\})>>', re.S)


def history(lines, idx):
    """Operations from the New that started the trace up to event idx (1-based)."""
    i = idx - 1
    while i > 0 and json.loads(lines[i])['op'] != 'New':
        i -= 1
    res = []
    for x in lines[i:idx]:
        v = json.loads(x)
        a = dict(v['a'])
        a['op'] = v['op']
        res.append(a)
    return res


class Ctx:
    pass


def histories(c, job):
    """Histories of calls enumerated (or walked at random) by TLC, shared by the shards of a job."""
    with c.lock:
        lock = c.locks.setdefault(job['name'], threading.Lock())
    with lock:
        if job['name'] not in c.hists:
            cfg, args, count = job['gen'], ['-workers', '1', '-nowarning'], job['count'][c.tier]
            if job.get('walk'):
                args += ['-simulate', 'num=%d' % count, '-depth', str(job['walk']), '-seed', str(c.seed)]
            rc, txt, gen, dist = tlc(job['model'] + '.tla', cfg + '.cfg', dict(PROP=c.prop), c.tmp, args)
            hs = hist.parse(txt)
            if rc != 0 or not hs:
                raise ToolError('no histories from %s:\n%s' % (cfg, txt[-3000:]))
            total = len(hs)
            hs.sort(key=lambda h: json.dumps(h, sort_keys=True))
            random.Random(c.seed).shuffle(hs)
            c.hists[job['name']] = (hs[:count], total)
        return c.hists[job['name']]


def script_for(c, job, k):
    hs, _ = histories(c, job)
    n = job['shards'][c.tier]
    path = os.path.join(c.tmp, '%s_%d.script' % (job['name'], k))
    hist.write(path, hs[k::n], job['start'], c.seed * 1000 + k)
    return path


def do_trace_shard(c, job, k):
    """Record one shard and have TLC judge it."""
    out = os.path.join(c.tmp, '%s_%d.ndjson' % (job['name'], k))
    seed = c.seed * 1000 + k + job.get('salt', 0) * 97
    n = job['n'][c.tier]
    args = job['driver'] + ['--seed', str(seed), '--n', str(n)] + job.get('args', [])
    if 'gen' in job:
        args = job['driver'] + job.get('args', []) + ['--in', script_for(c, job, k)]
    bad = run_harness(c.exe, args, out)
    res = dict(job=job['name'], events=0, traces=0, states=0, trans=0, viol=[], samples=[], kinds={})
    lines = []
    if os.path.exists(out):
        with open(out) as f:
            lines = [x for x in f.read().split('\n') if x]
        if bad and lines:
            try:
                json.loads(lines[-1])
            except ValueError:
                lines.pop()
            with open(out, 'w') as f:
                f.write('\n'.join(lines) + '\n')
    if bad:
        rp = os.path.join(c.rep, '%s-%s-%d-abnormal.ndjson' % (c.prop, job['name'], k))
        with open(rp, 'w') as f:
            for o in (history(lines, len(lines)) if lines else []):
                f.write(json.dumps(o) + '\n')
        res['viol'].append(dict(what=bad, replay=rp))
        return res
    if not lines:
        raise ToolError('empty trace')
    res['events'] = len(lines)
    ops = {}
    for x in lines:
        v = json.loads(x)
        ops[v['op']] = ops.get(v['op'], 0) + 1
        for y in v.get('ev', []):
            key = 'callback ' + str(y.get('e'))
            ops[key] = ops.get(key, 0) + 1
    res['kinds'] = ops
    res['traces'] = ops.get('New', 0)
    h = history(lines, min(len(lines), 9))
    res['samples'] = [json.dumps(h)[:600]]
    rc, txt, gen, dist = tlc(job['module'] + '.tla', job.get('cfg', job['module']) + '.cfg',
                             dict(TRACE=out, PROP=c.prop), c.tmp, ['-workers', '1', '-nowarning'])
    res['states'], res['trans'] = dist, max(0, gen - 1)
    vs = VIOL.findall(txt)
    for idx, cl in vs[:5]:
        idx = int(idx)
        rp = os.path.join(c.rep, '%s-%s-%d-%d.ndjson' % (c.prop, job['name'], k, idx))
        with open(rp, 'w') as f:
            for o in history(lines, idx):
                f.write(json.dumps(o) + '\n')
        res['viol'].append(dict(what='%s event %d %s' % (job['name'], idx, ' '.join(cl.split())), replay=rp,
                                event=json.loads(lines[idx - 1]).get('op')))
    if not vs and rc != 0:
        raise ToolError('TLC failed on %s:\n%s' % (job['name'], txt[-3000:]))
    os.unlink(out)
    return res


def do_mc(c, job):
    args = ['-workers', str(job.get('workers', 2))] + job.get('args', [])
    rc, txt, gen, dist = tlc(job['module'] + '.tla', job['cfg'][c.tier] + '.cfg', dict(PROP=c.prop), c.tmp, args,
                             mem=job.get('mem', '4g'))
    if rc != 0:
        # the closed model is independent of the code: failing is an error of the check
        raise ToolError('model %s failed:\n%s' % (job['name'], txt[-3000:]))
    return dict(job=job['name'], mc=True, states=dist, trans=gen, viol=[], events=0, traces=0, samples=[], kinds={})


def known_findings():
    p = os.path.join(ROOT, 'known_findings.txt')
    return [x.strip() for x in open(p)] if os.path.exists(p) else []


def main():
    prop = sys.argv[1]
    c = Ctx()
    c.prop = prop
    c.lock, c.locks, c.hists = threading.Lock(), {}, {}
    c.tier = os.environ.get('VERIF_TIER', 'quick')
    if c.tier not in ('quick', 'thorough'):
        c.tier = 'quick'
    c.seed = int(os.environ.get('VERIF_SEED', '1') or '1') % 1000000
    t0 = time.time()
    os.makedirs(EVID, exist_ok=True)
    c.rep = os.path.join(EVID, 'replay')
    os.makedirs(c.rep, exist_ok=True)
    for f in glob.glob(os.path.join(c.rep, prop + '-*')):
        os.unlink(f)
    c.tmp = tempfile.mkdtemp(prefix='verif_' + prop + '_')
    spec = JOBS[prop]
    results, errors = [], []
    try:
        c.exe = build()
        with cf.ThreadPoolExecutor(WORKERS) as ex:
            futs = []
            for j in spec['jobs']:
                if j['kind'] == 'mc':
                    futs.append(ex.submit(do_mc, c, j))
            for j in spec['jobs']:
                if j['kind'] == 'trace':
                    for k in range(j['shards'][c.tier]):
                        futs.append(ex.submit(do_trace_shard, c, j, k))
            # a violation decides the property, whatever the remaining parts would say
            for f in cf.as_completed(futs):
                try:
                    results.append(f.result())
                except cf.CancelledError:
                    continue
                except ToolError as e:
                    errors.append(str(e))
                    continue
                if results[-1]['viol']:
                    for x in futs:
                        x.cancel()
    except ToolError as e:
        print('check error: %s' % e)
        sys.exit(2)
    finally:
        shutil.rmtree(c.tmp, ignore_errors=True)
    viol = [v for r in results for v in r['viol']]
    if errors and not viol:
        print('check error: %s' % errors[0])
        sys.exit(2)
    mc = [r for r in results if r.get('mc')]
    tr = [r for r in results if not r.get('mc')]
    kinds = {}
    for r in tr:
        for k, v in r['kinds'].items():
            kinds[k] = kinds.get(k, 0) + v
    cov = dict(
        states=sum(r['states'] for r in mc) if mc else sum(r['states'] for r in tr),
        transitions=sum(r['trans'] for r in mc) if mc else sum(r['trans'] for r in tr),
        traces_validated_against_impl=sum(r['traces'] for r in tr),
        trace_events_judged=sum(r['events'] for r in tr),
        histories_enumerated={k: v[1] for k, v in sorted(c.hists.items())},
        models=[dict(model=r['job'], distinct_states=r['states'], states_generated=r['trans']) for r in mc],
        event_counts=dict(sorted(kinds.items())),
        samples=[s for r in tr for s in r['samples']][:4])
    ev = dict(property=prop, tier=c.tier, seed=c.seed, level='model_checking', coverage=cov,
              assumptions=spec.get('assumptions', []), violations=len(viol), wall_s=round(time.time() - t0, 2))
    with open(os.path.join(EVID, prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
        f.write('\n')
    if viol:
        for v in viol[:5]:
            print('violated: ' + v['what'])
        print('VIOLATION property=%s replay=%s' % (prop, viol[0]['replay']))
        sys.exit(1)
    print('held: property=%s traces=%d events=%d model states=%d' % (
        prop, cov['traces_validated_against_impl'], cov['trace_events_judged'], cov['states']))
    sys.exit(0)


if __name__ == '__main__':
    try:
        main()
    except SystemExit:
        raise
    except BaseException as e:  # anything unexpected is an error of the check
        print('check error: %r' % (e,))
        sys.exit(2)
