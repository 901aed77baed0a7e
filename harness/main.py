"""./check PROPERTY [tier] : decide one property.  Exit 0 held, 1 violated, 2 machinery failure."""
import os, sys, tempfile, shutil, json, time, traceback, datetime

def scratch_home(base):
    """own HOME: the package writes its preferences there (and would ask PyPI for a newer version)"""
    home = os.path.join(base, 'home')
    os.makedirs(os.path.join(home, '.config'), exist_ok=True)
    stamp = datetime.datetime.now().strftime('%Y-%m-%dT%H:%M:%S.%f')
    with open(os.path.join(home, '.config', 'ca.dcclab.python.raytracing.json'), 'w') as f:
        json.dump({'lastVersionCheck': stamp}, f)
    os.environ['HOME'] = home
    os.environ['XDG_CONFIG_HOME'] = os.path.join(home, '.config')
    os.environ['MPLCONFIGDIR'] = os.path.join(home, 'mpl')
    for k in ('RAYTRACING_EXPERT',):
        os.environ.pop(k, None)

def main(argv):
    pid = argv[1]
    tier = argv[2] if len(argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    base = tempfile.mkdtemp(prefix='vf-%s-' % pid)
    rc = 2
    try:
        scratch_home(base)
        from . import core
        from .ctx import Ctx
        from . import registry
        ctx = Ctx(pid, tier, seed, base)
        registry.run(ctx)
        rc = ctx.finish()
    except BaseException:
        traceback.print_exc()
        sys.stderr.flush()
        rc = 2
    finally:
        shutil.rmtree(base, ignore_errors=True)
    sys.stdout.flush()
    os._exit(rc)

if __name__ == '__main__':
    main(sys.argv)
