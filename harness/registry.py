"""What each check explores."""
from . import core

CHECKS = {}
def check(pid):
    def deco(f):
        CHECKS[pid] = f
        return f
    return deco

def run(ctx):
    core.classes()
    CHECKS[ctx.pid](ctx)

def world(ctx, *plan):
    from . import d_world
    ctx.validate('WorldTrace', d_world.drive(ctx, *plan))

# known ways of getting it wrong, each of which the specification has to reject
MUTANTS = {p: [('MCWorld%s.cfg' % n, i) for n, i in m] for p, m in dict(
    C02=[('Stale', 'EditedIsChained'), ('Lax', 'EditedFits'), ('Medium', 'EditedFits')], C03=[('Eager', 'RefusedChangesNothing')],
    C06=[('Unguarded', 'T06')], C07=[('Widest', 'T07')], C08=[('LastField', 'T08')], C09=[('ExitPupil', 'T09')], C11=[('WrongWay', 'T11')],
    C12=[('AirFocal', 'T12')], C13=[('InPlace', 'T13'), ('NoReverse', 'T13'), ('ForgetSeen', 'T13')], C14=[('WholeLeaf', 'T14')], C15=[('ThinQ', 'T15')],
    C16=[('SameWay', 'T16')], C20=[('SameObjects', 'T20')], C31=[('Exchanged', 'T31')], C27=[('OneSided', 'T27'), ('ByAngle', 'T27')]).items()}

def small(ctx, setup, cfg, limit=None):
    """the specification on a small world: its theorems, and its histories on the code"""
    from . import d_replay
    r = ctx.model('MCWorld', cfg + '.cfg')
    for name, inv in MUTANTS.get(ctx.pid, ()):
        if name not in [m['config'] for m in ctx.models]:
            ctx.model('MCWorld', name, expect=inv)
    d_replay.replay(ctx, r, setup, limit)

def paths(ctx, limit=None):
    small(ctx, 'paths', ctx.n('MCPaths3', 'MCPaths4'), limit)

@check('C01')
def c01(ctx):
    world(ctx, ('s_compose', ctx.n(200, 3000)))
    paths(ctx)

@check('C02')
def c02(ctx):
    world(ctx, ('s_edits', ctx.n(200, 3000)), ('s_empty', ctx.n(40, 400)))
    small(ctx, 'edits', 'MCEdits', ctx.n(1500, 10**6))

@check('C03')
def c03(ctx):
    world(ctx, ('s_edits', ctx.n(200, 3000)))
    small(ctx, 'edits', 'MCEdits', ctx.n(1500, 10**6))

@check('C04')
def c04(ctx):
    world(ctx, ('s_history', ctx.n(220, 3000)))
    paths(ctx)

@check('C05')
def c05(ctx):
    world(ctx, ('s_readonly', ctx.n(220, 3000)))
    paths(ctx)

@check('C06')
def c06(ctx):
    world(ctx, ('s_blocking', ctx.n(220, 3000)))
    paths(ctx)

@check('C07')
def c07(ctx):
    world(ctx, ('s_stop', ctx.n(250, 3000)), ('s_telecentric', ctx.n(30, 200)), ('s_nostop', ctx.n(20, 100)))
    paths(ctx)

@check('C08')
def c08(ctx):
    world(ctx, ('s_field', ctx.n(250, 3000)), ('s_telecentric', ctx.n(30, 200)), ('s_nostop', ctx.n(20, 100)))
    paths(ctx)

@check('C09')
def c09(ctx):
    world(ctx, ('s_pupil', ctx.n(250, 3000)), ('s_telecentric', ctx.n(40, 200)), ('s_nostop', ctx.n(20, 100)))
    paths(ctx)

@check('C10')
def c10(ctx):
    world(ctx, ('s_elements', ctx.n(200, 3000)), ('s_equal', ctx.n(40, 400)), ('s_invariant', ctx.n(150, 2000)))
    paths(ctx)

@check('C11')
def c11(ctx):
    world(ctx, ('s_conj', ctx.n(250, 3000)))
    paths(ctx)

@check('C12')
def c12(ctx):
    world(ctx, ('s_focal', ctx.n(200, 3000)))
    paths(ctx)

@check('C13')
def c13(ctx):
    world(ctx, ('s_flip', ctx.n(200, 3000)), ('s_flip_group', ctx.n(40, 400)), ('s_flip_known', 1))
    small(ctx, 'flips', ctx.n('MCFlips', 'MCFlips3'), ctx.n(600, 10**6))
    paths(ctx)

@check('C14')
def c14(ctx):
    world(ctx, ('s_upto', ctx.n(200, 3000)), ('s_subpath', ctx.n(150, 2000)))
    paths(ctx)

@check('C15')
def c15(ctx):
    world(ctx, ('s_beam', ctx.n(200, 3000)), ('s_clip', ctx.n(50, 500)))
    paths(ctx)

@check('C16')
def c16(ctx):
    world(ctx, ('s_cavity', ctx.n(300, 3000)))
    small(ctx, 'cavities', ctx.n('MCCavities', 'MCCavities3'))

@check('C25')
def c25(ctx):
    world(ctx, ('s_drawn', ctx.n(150, 2000)), ('s_stoplabels', ctx.n(60, 800)), ('s_shown', ctx.n(40, 400)), ('s_portrait', ctx.n(40, 400)), ('s_fieldshown', ctx.n(16, 200)),
          ('s_outline', ctx.n(40, 500)), ('s_elements_drawn', ctx.n(80, 1000)), ('s_pupil_drawn', ctx.n(16, 200)))
    paths(ctx)

@check('C32')
def c32(ctx):
    world(ctx, ('s_text', ctx.n(250, 3000)))
    paths(ctx)

@check('C33')
def c33(ctx):
    from . import d_world
    world(ctx, ('s_switches', ctx.n(180, 2500)))
    for m in ('Onwards', 'Hides'):
        ctx.model('MCSwitches', 'MCSwitches%s.cfg' % m, expect='ShowsWhatIsOn')
    d_world.clicks(ctx, ctx.model('MCSwitches', ctx.n('MCSwitches.cfg', 'MCSwitches4.cfg')), ctx.n(64, 10**6))

@check('C26')
def c26(ctx):
    world(ctx, ('s_along', ctx.n(200, 3000)))
    paths(ctx)

@check('C27')
def c27(ctx):
    world(ctx, ('s_axicon', ctx.n(200, 2000)))
    small(ctx, 'axicons', ctx.n('MCAxicons3', 'MCAxicons4'))

def rays(ctx, *plan):
    from . import d_rays
    ctx.validate('RayTrace', d_rays.drive(ctx, *plan))

@check('C18')
def c18(ctx):
    from . import d_rays
    rays(ctx, ('s_coll', ctx.n(400, 6000)), ('s_source', ctx.n(60, 600)), ('s_random', ctx.n(60, 600)))
    ctx.model('MCRays', 'MCRaysClosed.cfg', expect='CountedOnce')
    ctx.model('MCRays', 'MCRaysShared.cfg', expect='OnlyTheirOwn')
    d_rays.replay(ctx, ctx.model('MCRays', 'MCRays.cfg'), ctx.n(2500, 10**6))

@check('C19')
def c19(ctx):
    from . import d_rays
    rays(ctx, ('s_source', ctx.n(300, 4000)), ('s_random', ctx.n(300, 4000)))
    ctx.model('MCSources', 'MCSourcesOpen.cfg', expect='EndsIncluded')
    ctx.model('MCSources', 'MCSourcesRedrawn.cfg', expect='SeenStays')
    d_rays.replay_sources(ctx, ctx.model('MCSources', 'MCSourcesGrids.cfg'), 'sources of MCSources')
    d_rays.replay_sources(ctx, ctx.model('MCSources', ctx.n('MCSourcesRandom.cfg', 'MCSourcesRandom4.cfg')), 'histories of MCSources', ctx.n(1500, 20000))

@check('C20')
def c20(ctx):
    world(ctx, ('s_files', ctx.n(250, 3000)))
    rays(ctx, ('s_rayfiles', ctx.n(250, 3000)))
    small(ctx, 'files', ctx.n('MCFiles3', 'MCFiles4'))

@check('C17')
def c17(ctx):
    from . import d_parallel
    r = ctx.model('MCParallel', 'MCParallel.cfg')
    ctx.model('MCParallel', 'MCParallelBlocks.cfg')
    ctx.model('MCParallel', 'MCParallelFloor.cfg', expect='SameCollection')
    ctx.model('MCParallel', 'MCParallelStream.cfg', expect='SameCollection')
    if ctx.tier == 'thorough':
        ctx.model('MCParallel', 'MCParallelBig.cfg')
    d_parallel.replay(ctx, r)
    world(ctx, ('s_many', ctx.n(250, 3000)), ('s_parallel', ctx.n(120, 1000)))
    paths(ctx)

@check('C21')
def c21(ctx):
    from . import d_prefs
    for cfg, expect in (('MCPrefs.cfg', None), ('MCPrefsNoLock.cfg', 'NothingLost'), ('MCPrefsInPlace.cfg', 'NothingLost'), ('MCPrefsCached.cfg', 'ReadsAreCurrent')):
        ctx.model('MCPrefs', cfg, expect=expect)
    if ctx.tier == 'thorough':
        ctx.model('MCPrefs', 'MCPrefsBig.cfg')
    d_prefs.replay(ctx, ctx.model('PrefHist', 'PrefHist2.cfg'))
    d_prefs.replay(ctx, ctx.model('PrefHist', 'PrefHist3.cfg'), 1.0 if ctx.tier == 'thorough' else 0.15)
    ctx.validate('PrefTrace', d_prefs.drive(ctx, ('s_prefs', ctx.n(200, 4000)), ('s_cut', ctx.n(60, 400)), ('s_full', ctx.n(40, 400)),
                                            ('s_pair', ctx.n(60, 400)), ('s_crowd', ctx.n(30, 300))))

@check('C22')
def c22(ctx):
    from . import d_prefs
    ctx.validate('PrefTrace', d_prefs.drive(ctx, ('s_sessions', ctx.n(120, 1500)), ('s_spawned', ctx.n(12, 60))))
    ctx.model('MCSessions', 'MCSessionsAsked.cfg', expect='AskedOnce')
    ctx.model('MCSessions', 'MCSessionsOver.cfg', expect='RememberedIfSaved')
    d_prefs.replay_sessions(ctx, ctx.model('MCSessions', ctx.n('MCSessions.cfg', 'MCSessions3.cfg')), ctx.n(400, 12000))

def lenses(ctx, *plan):
    from . import d_lenses
    ctx.validate('LensTrace', d_lenses.drive(ctx, *plan))

@check('C23')
def c23(ctx):
    from . import d_lenses
    lenses(ctx, ('s_file', ctx.n(300, 4000)))
    ctx.model('MCLensFiles', 'MCLensFilesPadding.cfg', expect='Padded')
    ctx.model('MCLensFiles', 'MCLensFilesMM.cfg', expect='Scaled')
    d_lenses.replay_files(ctx, ctx.model('MCLensFiles', ctx.n('MCLensFiles.cfg', 'MCLensFiles4.cfg')), ctx.n(1500, 10**6))

@check('C24')
def c24(ctx):
    from . import d_lenses
    ctx.model('MCGlasses', 'MCGlasses.cfg')
    lenses(ctx, ('s_prescription', ctx.n(150, 2000)), ('s_stack', ctx.n(60, 800)), ('s_objective', ctx.n(60, 600)), ('s_systems', ctx.n(20, 200)),
           ('s_parts', 16), ('s_shifts', ctx.n(12, 100)))
    ctx.model('MCLenses', 'MCLensesCement.cfg', expect='OneGlass')
    ctx.model('MCLenses', 'MCLensesFocus.cfg', expect='Focuses')
    ctx.model('MCLenses', 'MCLensesOrder.cfg', expect='AroundStack')
    d_lenses.replay_lenses(ctx, ctx.model('MCLenses', ctx.n('MCLenses.cfg', 'MCLensesFine.cfg')), 10**6)

@check('C28')
def c28(ctx):
    ctx.model('MCGlasses', 'MCGlasses.cfg')
    from . import d_lenses
    ctx.model('MCNames', 'MCNamesPrefix.cfg', expect='NotQuite')
    d_lenses.replay_names(ctx, ctx.model('MCNames', 'MCNames.cfg'))
    lenses(ctx, ('s_find', ctx.n(120, 1500)), ('s_index', ctx.n(120, 1500)), ('s_glass', ctx.n(36, 72)))

@check('C29')
def c29(ctx):
    ctx.model('MCGlasses', 'MCGlasses.cfg')
    lenses(ctx, ('s_glass', ctx.n(36, 360)), ('s_shifts', ctx.n(8, 40)))

@check('C31')
def c31(ctx):
    world(ctx, ('s_report', ctx.n(200, 3000)))
    paths(ctx)
