"""One session: the package is started afresh, modes are chosen, warnings are counted.
Runs in a process of its own: as a script, or in a fork that forgets the package first."""
import sys, os, json, io, warnings, datetime

def clean():
    """as when Python starts"""
    for m in [m for m in sys.modules if m == 'raytracing' or m.startswith('raytracing.')]:
        del sys.modules[m]
    warnings.resetwarnings()
    for action, cat in (('ignore', ResourceWarning), ('ignore', ImportWarning), ('ignore', PendingDeprecationWarning), ('ignore', DeprecationWarning)):
        warnings.simplefilter(action, category=cat)

_round = [0]
def visible(rt):
    """how many of three warnings of each kind are printed: two from one line, one from another"""
    _round[0] += 1
    err, sys.stderr = sys.stderr, io.StringIO()
    out, sys.stdout = sys.stdout, io.StringIO()
    try:
        said = {}
        for cat in (rt.BeginnerHint, rt.ExpertNote, DeprecationWarning, UserWarning):
            text = 'note %d %s %d' % (os.getpid(), cat.__name__, _round[0])
            for line in (7, 7, 9):
                warnings.warn_explicit(text, cat, 'somewhere.py', line, module='somewhere', registry=_registry)
            said[cat.__name__] = text
        got = sys.stderr.getvalue() + sys.stdout.getvalue()
    finally:
        sys.stderr, sys.stdout = err, out
    return sorted([n, got.count(x)] for n, x in said.items())
_registry = {}

def pairs(p):
    return sorted([k, json.dumps(v, sort_keys=True)] for k, v in p.items())

def see(rt):
    try:
        return [['fresh', pairs(rt.Preferences())]]
    except Exception as e:
        return [['fail', []]]

def session(home, expert, calls):
    os.environ['HOME'] = home
    os.environ.pop('RAYTRACING_EXPERT', None)
    if expert:
        os.environ['RAYTRACING_EXPERT'] = '1'
    import urllib.request
    def offline(*a, **k):
        raise OSError('no network')
    urllib.request.urlopen = offline
    ev = []
    out, err = sys.stdout, sys.stderr
    sys.stdout, sys.stderr = io.StringIO(), io.StringIO()
    try:
        try:
            import raytracing as rt
        except Exception as e:
            ev.append(dict(op='session', ok=False, expert=expert, what=repr(e)[:200], see=[], vis=[]))
            return ev
        ev.append(dict(op='session', ok=True, expert=expert, vis=visible(rt), see=see(rt)))
        for name, save in calls:
            f = dict(beginner=rt.beginnerMode, expert=rt.expertMode, silent=rt.silentMode)[name]
            ok = True
            try:
                f() if save is None else f(saveToPrefs=save)
            except Exception as e:
                ok = False
            ev.append(dict(op='mode', ok=ok, m=name, save=bool(save), vis=visible(rt), see=see(rt)))
    finally:
        sys.stdout, sys.stderr = out, err
    return ev

if __name__ == '__main__':
    sys.dont_write_bytecode = True
    home, expert, calls, repo = json.loads(sys.argv[1])
    sys.path.insert(0, repo)
    print('RESULT ' + json.dumps(session(home, expert, calls)))
