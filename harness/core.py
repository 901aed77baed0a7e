"""Runs TLC, collects verdicts, writes evidence.  Knows nothing about optics."""
import os, sys, json, subprocess, tempfile, shutil, time, re, hashlib, multiprocessing

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, 'spec')
JAR = '/opt/veriftools/tla/tla2tools.jar'
CM = '/opt/veriftools/tla/CommunityModules-deps.jar'
CORES = min(8, os.cpu_count() or 1)

class Machinery(Exception):
    """something of ours broke: error exit, not a verdict"""

def classes():
    """compiled overrides; rebuilt when missing or older than the source"""
    src = os.path.join(VERIF, 'java', 'BigRatOverrides.java')
    tag = hashlib.sha256(open(src, 'rb').read()).hexdigest()[:16]
    out = os.path.join(VERIF, 'build', 'classes-' + tag)
    if not os.path.exists(os.path.join(out, 'done')):
        tmp = tempfile.mkdtemp(prefix='vf-javac-')
        try:
            subprocess.run(['javac', '-nowarn', '-cp', JAR, '-d', tmp, src], check=True, capture_output=True)
            open(os.path.join(tmp, 'done'), 'w').close()
            os.makedirs(os.path.dirname(out), exist_ok=True)
            try:
                shutil.copytree(tmp, out, dirs_exist_ok=True)
            except OSError:
                pass
            if not os.path.exists(os.path.join(out, 'done')):
                raise Machinery('cannot build overrides')
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
    return out

class Result:
    pass

def tlc(module, cfg, scratch, workers=CORES, env=None, timeout=800, extra=(), heap=None, jvm=()):
    meta = tempfile.mkdtemp(prefix='meta-', dir=scratch)
    cmd = ['java', '-XX:+UseParallelGC', '-Xss64m', '-Djava.io.tmpdir=' + meta, '-Xmx%s' % (heap or '6g'), '-Dtlc2.overrides.TLCOverrides=vf.BigRatOverrides:tlc2.overrides.TLCOverrides',
           *jvm, '-cp', ':'.join([classes(), JAR, CM]), 'tlc2.TLC', '-metadir', meta, '-workers', str(workers), '-noGenerateSpecTE',
           '-config', cfg, *extra, module]
    e = dict(os.environ)
    e.update(env or {})
    e['JAVA_TOOL_OPTIONS'] = ''
    t0 = time.time()
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=e, capture_output=True, text=True, timeout=timeout, errors='replace')
    except subprocess.TimeoutExpired:
        raise Machinery('TLC ran out of time on %s %s' % (module, cfg))
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    r = Result()
    r.out, r.rc, r.wall, r.cmd = p.stdout + p.stderr, p.returncode, time.time() - t0, ' '.join(cmd)
    m = re.findall(r'(\d+) states generated, (\d+) distinct states found', r.out)
    r.generated, r.distinct = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
    r.ok = 'Model checking completed. No error has been found.' in r.out
    r.violated = re.findall(r'(?:Invariant|Action property|Temporal properties|property) (\S+) (?:is|was|were) violated', r.out)
    r.lines = [json.loads(x) for x in re.findall(r'^"(?:REJECT|OUT) .*"$', r.out, re.M)]
    return r

def rejects(r):
    out = []
    for s in r.lines:
        if s.startswith('REJECT '):
            t, l, v = json.loads(s[7:])
            out.append((t, l, [tuple(x) for x in v]))
    return out

def outs(r):
    return [json.loads(s[4:]) for s in r.lines if s.startswith('OUT ')]

def validate(module, traces, scratch, cfg='Trace.cfg', timeout=800, heap=None, prop='*'):
    """code -> specification: every event of every trace is judged by the trace specification.
    traces: list of dict(tid, ev).  Returns (rejections, states)"""
    if not traces:
        raise Machinery('no traces for %s' % module)
    fd, path = tempfile.mkstemp(prefix='trace-', suffix='.ndjson', dir=scratch)
    with os.fdopen(fd, 'w') as f:
        for t in traces:
            f.write(json.dumps(t) + '\n')
    r = tlc(module, cfg, scratch, env={'TRACE': path, 'PROP': prop}, timeout=timeout, heap=heap)
    os.unlink(path)
    if not r.ok:
        k = r.out.find('Error:')
        raise Machinery('TLC failed on %s:\n%s' % (module, r.out[k if k >= 0 else -3000:][:4000]))
    rej = rejects(r)
    stop = {t: l for t, l, v in rej}
    expected = sum(1 + (stop[i + 1] if i + 1 in stop else len(t['ev'])) for i, t in enumerate(traces))
    if r.distinct != expected:
        raise Machinery('%s: TLC visited %d states, the traces have %d' % (module, r.distinct, expected))
    return rej, r

# ---------------------------------------------------------------- parallel driving
def _work(args):
    fn, chunk = args
    return [fn(x) for x in chunk]

def fork_map(fn, items, procs=CORES):
    """order preserving map over forked workers (fn must be a module level function)"""
    items = list(items)
    if procs <= 1 or len(items) < 2:
        return [fn(x) for x in items]
    n = min(procs * 4, len(items))
    chunks = [items[i::n] for i in range(n)]
    ctx = multiprocessing.get_context('fork')
    from concurrent.futures import ProcessPoolExecutor
    with ProcessPoolExecutor(max_workers=procs, mp_context=ctx) as ex:
        res = list(ex.map(_work, [(fn, c) for c in chunks]))
    out = [None] * len(items)
    for i, c in enumerate(res):
        for j, x in enumerate(c):
            out[i + j * n] = x
    return out

# ---------------------------------------------------------------- known findings
def known():
    p = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(p):
        return []
    return json.load(open(p))['findings']
