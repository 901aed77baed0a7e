"""Drivers for the preferences (C21) and the sessions (C22)."""
import os, sys, json, tempfile, shutil, time, select, signal, resource, datetime, subprocess, random, struct
from .env import rt, call, REPO, _sleep
from . import core, session
from .scenario import Rec, Stop, family, drive

def text(v):
    return json.dumps(v, sort_keys=True)

class NotJson:
    pass

# ---------------------------------------------------------------- processes
class Child:
    """f runs in a forked process; its result comes back as JSON.  at: what happens at the n-th line it executes"""
    def __init__(self, f, n=None, how=None):
        self.r, w = os.pipe()
        self.pr, pw = os.pipe()         # the child tells that it has come to line n
        gr, self.gw = os.pipe()         # and waits for permission
        sys.stdout.flush(), sys.stderr.flush()
        self.pid = os.fork()
        if self.pid == 0:
            try:
                dn = os.open(os.devnull, os.O_WRONLY)
                os.dup2(dn, 2), os.dup2(dn, 1)
                count = [0]
                def tracer(frame, event, arg):
                    if event == 'line':
                        count[0] += 1
                        if count[0] == n:
                            if how == 'killed':
                                os._exit(9)
                            if how == 'interrupted':
                                raise KeyboardInterrupt()
                            if how == 'paused':
                                os.write(pw, b'P')
                                os.read(gr, 1)
                    return tracer
                ok, res = True, 0
                try:
                    if n is not None:
                        sys.settrace(tracer)
                    res = f()
                    sys.settrace(None)
                except BaseException as e:
                    sys.settrace(None)
                    ok, res = False, repr(e)[:200]
                os.write(w, (json.dumps([ok, res, count[0]]) + '\n').encode())
            finally:
                os._exit(0)
        os.close(w), os.close(pw), os.close(gr)

    def reached(self, seconds=20):
        """the child waits at its line n (False: it is over before)"""
        r, _, _ = select.select([self.pr], [], [], seconds)
        return bool(r) and os.read(self.pr, 1) == b'P'

    def over(self, seconds):
        return bool(select.select([self.r], [], [], seconds)[0])

    def go(self):
        try:
            os.write(self.gw, b'G')
        except OSError:
            pass

    def end(self, seconds=20):
        """(ok, result, lines); None: it died or hangs"""
        data = b''
        t0 = time.time()
        while time.time() - t0 < seconds:
            if not select.select([self.r], [], [], max(0.0, seconds - (time.time() - t0)))[0]:
                break
            b = os.read(self.r, 65536)
            if not b:
                break
            data += b
        try:
            os.kill(self.pid, signal.SIGKILL)
        except OSError:
            pass
        os.waitpid(self.pid, 0)
        for fd in (self.r, self.pr, self.gw):
            os.close(fd)
        return json.loads(data) if data.endswith(b'\n') else None

KEYS = ['mode', 'a key', 'lastVersionCheck', 'é "quoted"\n', 'path', 'keys', '', 'x.y', 'size']
def value(rng, depth=0):
    k = rng.randrange(9 if depth < 2 else 6)
    return [lambda: rng.randint(-5, 10**12), lambda: rng.choice(['silent', 'expert', 'beginner', '', 'ünï', 'a' * 3000, '"', '\\n']), lambda: rng.random(),
            lambda: None, lambda: rng.random() < 0.5, lambda: rng.choice(['2021-01-01', 'x y', '{}']),
            lambda: [value(rng, depth + 1) for _ in range(rng.randint(0, 3))],
            lambda: {rng.choice('abc'): value(rng, depth + 1) for _ in range(rng.randint(0, 3))}, lambda: [[]]][k]()

class Prefs(Rec):
    def __init__(self, tid):
        super().__init__(tid)
        self.home = tempfile.mkdtemp(prefix='vf-prefs-')
        self.was = os.environ.get('HOME')
        os.environ['HOME'] = self.home
        self.cwd = os.getcwd()
        self.path = os.path.join(self.home, '.config', 'ca.dcclab.python.raytracing.json')
        self.obj = []

    def close(self):
        os.environ['HOME'] = self.was
        os.chdir(self.cwd)
        shutil.rmtree(self.home, ignore_errors=True)

    def place(self):
        os.makedirs(os.path.dirname(self.path), exist_ok=True)
        return self.path

    def move(self):
        """the program goes on in another directory"""
        os.chdir(tempfile.mkdtemp(dir=self.home))
        self.saw('see')

    def new(self):
        ok, p = call(lambda: rt.Preferences())
        self.obj.append(p if ok else None)
        return p

    # ---- observing
    def pairs(self, p):
        ok, r = call(lambda: sorted([k, text(v)] for k, v in p.items()))
        return r if ok else None

    def printed(self, p):
        """the printed dictionary as pairs; []: it has another form"""
        ok, r = call(lambda: repr(p))
        if not ok or not isinstance(r, str):
            return None
        try:
            d = eval(r, {'nan': float('nan'), 'inf': float('inf'), '__builtins__': {}})
        except Exception:
            return []
        return [sorted([k, text(v)] for k, v in d.items())] if type(d) is dict else []

    def see(self):
        """what every object, old and new, prints and says"""
        out = []
        for i, p in enumerate(self.obj):
            r = [] if p is None else self.printed(p)
            out += [['fail', []]] if r is None else [['printed %d' % i, x] for x in r]
        for name, p in [(str(i), p) for i, p in enumerate(self.obj)] + [('fresh', None)]:
            if p is None:
                ok, p = call(lambda: rt.Preferences())
                if not ok:
                    p = None
            r = None if p is None else self.pairs(p)
            out.append(['fail' if r is None else name, r or []])
        return out

    def saw(self, op, ok=True, **k):
        self.log(op, ok, see=self.see(), **k)

    # ---- changing
    def how(self, i, act, style=0):
        """the change as a function of no argument"""
        p = self.obj[i]
        a = act['a']
        kv = [(k, json.loads(v)) for k, v in act.get('kv', [])]
        def setone():
            for k, v in kv:
                p[k] = v
        if a == 'set':
            f = [setone, lambda: p.update(dict(kv)), lambda: p.update(kv), setone][style % 4] if len(kv) == 1 else lambda: p.update(dict(kv))
            return f
        if a == 'del':
            def dele():
                del p[act['k']]
            return [dele, lambda: p.pop(act['k'])][style % 2]
        if a == 'default':
            return lambda: p.setdefault(act['k'], json.loads(act['v']))
        if a == 'reset':
            return [p.resetPreferences, p.clear][style % 2]
        if a == 'bad':
            v = [NotJson(), {1, 2}, [1, NotJson()], {'a': lambda: 0}, b'bytes', {(1, 2): 3}][style % 6]
            def setbad():
                p[act['k']] = v
            return setbad
        return lambda: None

    def do(self, i, act, style=0):
        ok, _ = call(self.how(i, act, style))
        self.saw('do', ok, act=act, o=i)

    def file(self, how, rng):
        content = []
        if how == 'missing':
            if os.path.exists(self.path):
                os.remove(self.path)
        elif how == 'foreign':
            d = {k: value(rng) for k in rng.sample(KEYS, rng.randint(0, 4))}
            open(self.place(), 'w').write(json.dumps(d, indent=rng.choice([None, 1])))
            content = sorted([k, text(v)] for k, v in d.items())
        else:
            good = json.dumps({'mode': 'expert', 'k': [1, 2, {'a': 'b'}], 'x': 1.5}).encode()
            torn = good[:rng.randint(0, len(good) - 1)]
            b = dict(empty=b'', torn=torn, list=rng.choice([b'[]', b'[1, 2]', b'[["mode", "expert"]]']), scalar=rng.choice([b'null', b'5', b'"mode"', b'true', b'NaN']),
                     binary=bytes(rng.randrange(256) for _ in range(40)) + b'\xff\xfe\x00', deep=b'[' * 100000, tail=good + b'}', spaces=b'  \n ')[how]
            open(self.place(), 'wb').write(b)
        self.saw('file', True, how=how, content=content)

    def ask(self, i, rng, q=None, k=None):
        q = q or rng.choice(['get', 'get', 'getdef', 'in', 'len', 'keys', 'all', 'all'])
        k = k if k is not None else rng.choice(KEYS)
        r = self.asked(i, q, k)
        self.log('q', r['ok'], **{a: b for a, b in r.items() if a != 'ok'})

    def asked(self, i, q, k):
        p = self.obj[i]
        f = dict(get=lambda: text(p[k]), getdef=lambda: text(p.get(k, 'no such')), len=lambda: len(p), keys=lambda: list(p), all=lambda: sorted([a, text(b)] for a, b in p.items()))
        f['in'] = lambda: k in p
        ok, res = call(f[q])
        return dict(q=q, k=k, ok=ok, res=res if ok else '', d=text('no such'), o=i)

def act(rng, plain=False):
    r = rng.random()
    k = rng.choice(KEYS)
    if r < 0.6 or (plain and r < 0.8):
        kv = [[k, text(value(rng))]]
        if rng.random() < 0.3:
            kv += [[x, text(value(rng))] for x in rng.sample(KEYS, 2) if x != k]
        return dict(a='set', kv=kv)
    if r < 0.75:
        return dict(a='del', k=k)
    if r < 0.82:
        return dict(a='reset')
    if r < 0.92 and not plain:
        return dict(a='bad', k=k)
    return dict(a='default', k=k, v=text(value(rng)))

scen = family(Prefs)

def begin(W, rng, n=None):
    if rng.random() < 0.7:      # otherwise there is not even a directory for them yet
        os.mkdir(os.path.join(W.home, '.config'))
    for _ in range(n or rng.randint(1, 3)):
        W.new()
    W.saw('see') if rng.random() < 0.3 else None
    for _ in range(rng.randint(0, 2)):
        W.do(rng.randrange(len(W.obj)), act(rng), rng.randrange(12))

@scen
def s_prefs(W, rng, tier):
    """histories of several objects"""
    begin(W, rng)
    for _ in range(rng.randint(4, 14)):
        r = rng.random()
        i = rng.randrange(len(W.obj))
        if r < 0.45:
            W.do(i, act(rng), rng.randrange(12))
        elif r < 0.75:
            W.ask(i, rng)
        elif r < 0.85:
            W.file(rng.choice(['missing', 'foreign', 'foreign', 'empty', 'torn', 'list', 'scalar', 'binary', 'deep', 'tail', 'spaces']), rng)
        elif r < 0.88:
            W.move()
        elif r < 0.94 and len(W.obj) < 4:
            W.new()
            W.saw('see')
        else:
            # what the caller does with what it was given is its own business
            k = rng.choice(KEYS)
            v = [1]
            x = dict(a='set', kv=[[k, text(v)]])
            def f():
                W.obj[i][k] = v
            ok, _ = call(f)
            v.append(2)
            W.saw('do', ok, act=x, o=i)
            ok, v = call(lambda: W.obj[rng.randrange(len(W.obj))][k])
            if ok and isinstance(v, list):
                v.append(3)
            W.saw('see')

@scen
def s_cut(W, rng, tier):
    """a change is cut short at any line it executes"""
    begin(W, rng)
    i = rng.randrange(len(W.obj))
    for _ in range(rng.randint(1, 2)):
        a = act(rng, plain=True)
        style = rng.randrange(12)
        f = W.how(i, a, style)
        total = Child(f, n=-1)
        r = total.end()
        if r is None:
            W.log('crash', False, what='a change does not end')
            raise Stop()
        W.saw('do', r[0], act=a, o=i, by='another process')
        lines = r[2]
        a = act(rng, plain=True)
        f = W.how(i, a, style)
        points = list(range(1, lines + 3)) if tier == 'thorough' else sorted(rng.sample(range(1, lines + 3), min(lines + 2, 10)))
        for n in points:
            how = rng.choice(['killed', 'killed', 'interrupted'])
            Child(f, n=n, how=how).end()
            W.saw('cut', True, act=a, how=how, line=n)
            if rng.random() < 0.3:
                W.do(rng.randrange(len(W.obj)), act(rng, plain=True), style)

@scen
def s_full(W, rng, tier):
    """the disk is full"""
    begin(W, rng)
    for _ in range(3):
        i = rng.randrange(len(W.obj))
        a = rng.choice([act(rng, plain=True), dict(a='set', kv=[[rng.choice(KEYS), text('long ' * rng.choice([20, 3000]))]])])
        limit = rng.choice([0, 5, 40, 100, 4096])
        f = W.how(i, a, rng.randrange(12))
        def g():
            signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
            resource.setrlimit(resource.RLIMIT_FSIZE, (limit, limit))
            f()
        r = Child(g).end()
        if r is not None and r[0]:
            W.saw('do', True, act=a, o=i, limit=limit)
        else:
            W.saw('cut', True, act=a, how='disk full', line=limit)

@scen
def s_pair(W, rng, tier):
    """a change by one process, stopped at one of its lines while another one changes or reads"""
    begin(W, rng, 2)
    W.do(0, dict(a='set', kv=[['x.y', '1'], ['size', '2']]))
    a = act(rng, plain=True)
    while a['a'] == 'del':
        a = act(rng, plain=True)
    r = Child(W.how(0, a), n=-1).end()
    if r is None:
        W.log('crash', False, what='a change does not end')
        raise Stop()
    W.saw('do', r[0], act=a, o=0, by='another process')
    lines = r[2]
    for n in (range(1, lines + 2) if tier == 'thorough' else sorted(rng.sample(range(1, lines + 2), min(lines, 6)))):
        style = rng.randrange(12)
        a = dict(a='set', kv=[[rng.choice(KEYS), text(rng.random())]]) if rng.random() < 0.8 else dict(a='reset')
        A = Child(W.how(0, a, style), n=n, how='paused')
        there = A.reached()
        if rng.random() < 0.7:
            b = dict(a='set', kv=[[rng.choice(KEYS), text(rng.random())]]) if rng.random() < 0.85 else dict(a='reset')
            B = Child(W.how(1, b, style))
            q = None
        else:
            q, k = rng.choice(['get', 'all', 'len', 'in']), rng.choice(KEYS)
            B = Child(lambda: W.asked(1, q, k))
        B.over(0.05)
        A.go()
        ra, rb = A.end(), B.end()
        if ra is None or rb is None:
            W.log('crash', False, what='two processes block each other')
            raise Stop()
        if q is None:
            W.saw('pair', True, a=a, b=b, oka=ra[0], okb=rb[0], line=n, there=there)
        else:
            W.saw('meanwhile', True, a=a, r=rb[1] if rb[0] else dict(q='failed', k='', ok=False, res='', d='', o=1), line=n, there=there)

@scen
def s_crowd(W, rng, tier):
    """several processes changing preferences of their own and common ones"""
    begin(W, rng)
    n = rng.randint(2, 4)
    acts = [[dict(a='set', kv=[[rng.choice(['own %d' % p, 'own %d' % p, 'common']), text([p, j])]]) for j in range(rng.randint(1, 6))] for p in range(n)]
    def run(p):
        def f():
            o = rt.Preferences()
            for a in acts[p]:
                for k, v in a['kv']:
                    o[k] = json.loads(v)
        return f
    cs = [Child(run(p)) for p in range(n)]
    rs = [c.end() for c in cs]
    W.saw('crowd', all(r is not None and r[0] for r in rs), acts=acts)

# ---------------------------------------------------------------- generated histories
def history(o):
    W = Prefs('history')
    try:
        for _ in range(2):
            W.new()
        oks = []
        for x in o['hist']:
            if x['a'] == 'new':
                oks.append(True)
                ok, W.obj[x['o'] - 1] = call(lambda: rt.Preferences())
            elif x['a'] == 'spoil':
                oks.append(True)
                if x['how'] == 'missing':
                    if os.path.exists(W.path):
                        os.remove(W.path)
                else:
                    open(W.place(), 'w').write(dict(empty='', torn='{"mode": "exp', list='[["mode", 1]]')[x['how']])
            elif x['a'] == 'foreign':
                oks.append(True)
                json.dump({k: json.loads(v) for k, v in x['kv']}, open(W.place(), 'w'))
            else:
                oks.append(call(W.how(x['o'] - 1, x))[0])
        want = sorted(map(list, o['store']))
        saw = W.see()
        if oks != o['oks']:
            return [('change refused or accepted', dict(o, observed=oks))]
        if any(n == 'fail' or s != want for n, s in saw):
            return [('preferences after a history', dict(o, observed=saw))]
        return []
    finally:
        W.close()

def replay(ctx, r, keep=1.0):
    rng = random.Random(ctx.seed)
    hs = sorted(core.outs(r), key=lambda o: json.dumps(o, sort_keys=True))
    if keep < 1:
        hs = [h for h in hs if rng.random() < keep]
    bad = [b for bs in core.fork_map(history, hs) for b in bs]
    ctx.replayed(len(hs), bad, 'PrefHist')

# ---------------------------------------------------------------- sessions
def forked(home, expert, calls):
    def f():
        session.clean()
        return session.session(home, expert, calls)
    r = Child(f).end(60)
    return r[1] if r is not None and r[0] else None

def spawned(home, expert, calls):
    env = {k: v for k, v in os.environ.items() if k not in ('RAYTRACING_EXPERT', 'PYTHONWARNINGS')}
    p = subprocess.run([sys.executable, '-B', os.path.join(os.path.dirname(__file__), 'session.py'), json.dumps([home, expert, calls, REPO])],
                       capture_output=True, text=True, timeout=120, env=env, cwd=home)
    m = [x for x in p.stdout.splitlines() if x.startswith('RESULT ')]
    return json.loads(m[-1][7:]) if m else None

def stamp(days=0):
    return (datetime.datetime.now() - datetime.timedelta(days=days)).isoformat()

def content(rng):
    d = {}
    m = rng.choice(['none', 'none', 'beginner', 'expert', 'silent', 'silent', 'expert', 'other'])
    if m == 'other':
        d['mode'] = rng.choice(['Expert', '', 'verbose', 5, None, ['silent'], {'mode': 'silent'}, True, 'expert '])
    elif m != 'none':
        d['mode'] = m
    v = rng.choice(['now', 'now', 'now', 'old', 'none', 'odd'])
    if v != 'none':
        d['lastVersionCheck'] = dict(now=stamp(), old=stamp(rng.choice([1.5, 40])), odd=rng.choice([5, None, 'yesterday', ['x'], '2021-01-01T00:00:00+00:00']))[v]
    for k in rng.sample(KEYS[3:], rng.randint(0, 3)):
        d[k] = value(rng)
    return d

def sessions(W, rng, run, n):
    if rng.random() < 0.7:
        os.mkdir(os.path.join(W.home, '.config'))
    W.new()
    r = rng.random()
    if r < 0.7:
        d = content(rng)
        json.dump(d, open(W.place(), 'w'))
        W.saw('file', True, how='foreign', content=sorted([k, text(v)] for k, v in d.items()))
    elif r < 0.8:
        W.file(rng.choice(['torn', 'empty', 'list', 'binary', 'missing']), rng)
    for _ in range(n):
        if rng.random() < 0.3:
            W.do(0, dict(a='set', kv=[[rng.choice(KEYS), text(value(rng))]]))
        calls = [[rng.choice(['beginner', 'expert', 'silent']), rng.choice([None, False, True, True])] for _ in range(rng.randint(0, 3))]
        expert = rng.random() < 0.3
        ev = run(W.home, expert, calls)
        if ev is None:
            W.log('session', False, expert=expert, what='the session died', see=[], vis=[])
            return
        W.ev += ev
        W.saw('see')

@scen
def s_sessions(W, rng, tier):
    sessions(W, rng, forked, rng.randint(1, 4))

@scen
def s_spawned(W, rng, tier):
    sessions(W, rng, spawned, 2)

def play_sessions(job):
    k, hist = job
    W = Prefs('sessions-%d' % k)
    try:
        W.new()
        d = dict((a, json.loads(b)) for a, b in hist[0]['kv'])
        if d or k % 2:
            json.dump(d, open(W.place(), 'w'))
            W.saw('file', True, how='foreign', content=sorted([a, text(b)] for a, b in d.items()))
        else:
            W.file('missing', random.Random(k))
        for o in hist[1:]:
            if o['op'] == 'do':
                W.do(0, o['act'], k % 12)
                continue
            ev = forked(W.home, o['expert'], [[c['m'], c['save'] or [None, False][k % 2]] for c in o['calls']])
            if ev is None:
                W.log('session', False, expert=o['expert'], what='the session died', see=[], vis=[])
                break
            W.ev += ev
        W.saw('see')
    except Stop:
        pass
    except (KeyboardInterrupt, MemoryError):
        raise
    except BaseException as e:
        W.log('crash', False, what='%s: %s' % (type(e).__name__, str(e)[:120]))
    finally:
        W.close()
    return W.done()

def replay_sessions(ctx, r, limit=None):
    """the histories TLC generates from spec/MCSessions.tla"""
    from .gen import rng_for
    hs = sorted((o['hist'] for o in core.outs(r)), key=lambda h: json.dumps(h, sort_keys=True))
    jobs = list(enumerate(hs))
    if limit and len(jobs) > limit:
        jobs = sorted(rng_for(ctx.seed, 'sessions', ctx.pid, 0).sample(jobs, limit))
    ctx.kinds['histories of MCSessions'] = len(jobs)
    ctx.log('replaying %d of %d histories of MCSessions' % (len(jobs), len(hs)))
    ctx.validate('PrefTrace', core.fork_map(play_sessions, jobs))
