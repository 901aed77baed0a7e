"""One run of one check: what was explored, what was violated, the evidence file."""
import os, sys, json, time, hashlib, traceback
from . import core
from .num import pretty

class Ctx:
    def __init__(self, pid, tier, seed, base):
        self.pid, self.tier, self.seed, self.base = pid, tier, seed, base
        self.t0 = time.time()
        self.states = self.transitions = self.traces = self.events = 0
        self.models, self.samples, self.viol, self.findings = [], [], [], []
        self.kinds = {}
        self.assumptions = []
        self.known = [k for k in core.known() if k.get('property') == pid]
        self.rank = 0

    def n(self, quick, thorough=None):
        return quick if self.tier == 'quick' else (thorough if thorough is not None else quick * 12)

    def log(self, *a):
        print('# %s %6.1fs' % (self.pid, time.time() - self.t0), *a, flush=True)

    # ---- code -> specification
    def validate(self, module, traces, **k):
        # a trace whose driver died on the code under test still counts: its last event says so
        rej, r = core.validate(module, traces, self.base, prop=self.pid, **k)
        self.states += r.distinct
        self.transitions += max(0, r.distinct - len(traces))
        self.traces += len(traces)
        for t in traces:
            for e in t['ev']:
                key = e['op'] + ((':' + str(e['q'])) if 'q' in e else '') + ('' if e.get('ok', True) else '!')
                self.kinds[key] = self.kinds.get(key, 0) + 1
        nrel = 0
        for t, l, v in rej:
            tr = traces[t - 1]
            mine = sorted(set(w for p, w in v if p == self.pid or p == 'C00'))
            if mine:
                nrel += 1
                self.violation(module, tr, l, mine)
            else:
                self.other(tr, l, v)
        if len(self.samples) < 3:
            t = min(traces, key=lambda t: abs(len(t['ev']) - 6))
            self.samples.append({'module': module, 'trace': t['tid'], 'events': [self.brief(e) for e in t['ev'][:12]]})
        self.log('%s: %d traces, %d states, %.1fs, %d rejected (%d for this property)' % (module, len(traces), r.distinct, r.wall, len(rej), nrel))
        return rej

    def other(self, tr, l, v):
        self.nother = getattr(self, 'nother', 0) + 1
        if self.nother > 4:
            return
        self.log('  other property: %s event %d %s' % (tr['tid'], l, sorted(set(map(tuple, v)))[:4]))

    def brief(self, e):
        return {k: pretty(v) for k, v in e.items() if k not in ('diff',)}

    def violation(self, module, tr, l, what):
        e = tr['ev'][l - 1] if 0 < l <= len(tr['ev']) else {}
        self.add_violation(what, dict(module=module, trace=tr['tid'], event=l, observed=self.brief(e),
                           changed=pretty(e.get('diff', [])), history=[self.brief(x) for x in tr['ev'][:l]], note=tr.get('note')),
                           sig=dict(what=what, op=e.get('op'), q=e.get('q'), tid=tr['tid'], tag=tr.get('tag')))

    def add_violation(self, what, detail, sig):
        for k in self.known:
            m = k.get('match', {})
            if m and all((sig.get(a) == b or (a == 'what' and b in sig.get('what', []))) for a, b in m.items()):
                line = '%s (%s)' % (k['what'], k.get('id', ''))
                if line not in self.findings:
                    self.findings.append(line)
                return
        self.viol.append((what, detail, sig))

    def require_known(self):
        pass

    # ---- model checking of the specification itself
    def model(self, module, cfg, expect=None, timeout=800, heap=None, workers=core.CORES, env=None, name=None):
        """expect: None = must hold; or the name of the invariant that must be violated (a mutant of the
        specification that represents a known way of getting it wrong: shows the invariant is not vacuous)"""
        r = core.tlc(module, cfg, self.base, timeout=timeout, heap=heap, workers=workers, env=env)
        rec = dict(module=module, config=cfg, states=r.distinct, generated=r.generated, seconds=round(r.wall, 1))
        if expect is None:
            if not r.ok:
                raise core.Machinery('specification %s/%s does not check:\n%s' % (module, cfg, r.out[-3000:]))
            rec['result'] = 'holds'
        else:
            if expect not in r.out or r.ok:
                raise core.Machinery('mutant %s/%s is not detected:\n%s' % (module, cfg, r.out[-3000:]))
            rec['result'] = 'mutant rejected by ' + expect
        self.models.append(rec)
        if expect is None:
            self.states += r.distinct
            self.transitions += r.generated
        self.log('%s/%s: %d states, %.1fs, %s' % (module, cfg, r.distinct, r.wall, rec['result']))
        return r

    def model_timeout_ok(self, *a, **k):
        return self.model(*a, **k)

    # ---- specification -> code
    def replayed(self, n, bad, what):
        """n behaviours generated by TLC stepped through the code; bad: list of (what, detail)"""
        self.traces += n
        self.kinds['replayed:' + what] = self.kinds.get('replayed:' + what, 0) + n
        for w, d in bad:
            self.add_violation([w], d, dict(what=[w], op='replay'))
        self.log('replayed %d behaviours of %s, %d differ' % (n, what, len(bad)))

    # ---- the end
    def finish(self):
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level='model_checking',
                  coverage=dict(states=self.states, transitions=self.transitions, traces_validated_against_impl=self.traces,
                                samples=self.samples or ['see models'], models=self.models, events=self.kinds, exhaustive=False),
                  assumptions=self.assumptions or ['TLC, the BigRat Java override (cross-checked by MCBigRat), the projection in harness/'],
                  wall_s=round(time.time() - self.t0, 2), violations=len(self.viol))
        out = os.environ.get('VERIF_SCRATCH') or core.VERIF  # set only while trying planted bugs
        d = os.path.join(out, 'evidence')
        os.makedirs(d, exist_ok=True)
        tmp = os.path.join(d, '.%s.%d' % (self.pid, os.getpid()))
        json.dump(ev, open(tmp, 'w'), indent=1, default=str)
        os.replace(tmp, os.path.join(d, self.pid + '.json'))
        for f in self.findings:
            print('KNOWN-FINDING: property=%s %s' % (self.pid, f))
        seen = set()
        for what, detail, sig in self.viol:
            key = (tuple(what), sig.get('op'), sig.get('q'))
            if key in seen or len(seen) >= 8:
                continue
            seen.add(key)
            rd = os.path.join(out, 'replays')
            os.makedirs(rd, exist_ok=True)
            blob = json.dumps(dict(property=self.pid, seed=self.seed, violated=what, **detail), indent=1, default=str)
            p = os.path.join(rd, '%s-%s.json' % (self.pid, hashlib.sha256(blob.encode()).hexdigest()[:10]))
            open(p, 'w').write(blob)
            print('VIOLATION property=%s replay=%s' % (self.pid, p))
            print('#   %s : %s' % (sig.get('q') or sig.get('op'), '; '.join(what)))
        self.log('done: %d violations' % len(self.viol))
        return 1 if self.viol else 0
