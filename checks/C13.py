PROP = dict(
    title='Water levels, waves and runup follow tide and wave records',
    statement='At any time and in any order of evaluation, the still water level is the (periodic, linearly interpolated) tide, zero without tide; waves follow the '
              'record, limited to gamma times the depth; runup, set-up and swash of a row follow Stockdon (2006) for the waves at its first cell; TWL and DSWL are the '
              'still water level plus runup and plus set-up; the wave height for mixing uses the depth below TWL; masks scale and shift levels, waves and runup; the '
              'water surface zs never lies below the bed, and the bed is not changed. Water levels or waves given by an external model are used instead, dry cells '
              'taking the level of the nearest wet cell.',
    quantifier=dict(over=['inputs', 'histories', 'configurations'], text='all combinations of tide, waves, runup, masks and external variables; any time within or beyond the records; any bed'),
    why_tests_cant='The unit tests do not evaluate hydrodynamics at all; levels depend on time, masks and on what an earlier time step left behind.',
    anchors=dict(files=['aeolis/hydro.py', 'aeolis/utils.py'],
                 mechanism=[dict(name='water levels and waves', where='aeolis/hydro.py:interpolate'), dict(name='runup', where='aeolis/hydro.py:calc_runup_stockdon'),
                            dict(name='masks', where='aeolis/utils.py:apply_mask'), dict(name='periodic series', where='aeolis/utils.py:interp_circular')],
                 state=[dict(name='SWL, TWL, DSWL, zs', meaning='water levels', where="s['SWL']"), dict(name='Hs, Tp, Hsmix', meaning='waves', where="s['Hs']"),
                        dict(name='R, eta, sigma_s', meaning='runup, set-up, swash', where="s['R']")],
                 observe_at=['hydro.interpolate', 'AeoLiS.update'], hook_needed=None))
LEVEL_NOTE = 'The closed forms are explicit, so every field of the real code is compared cell by cell; TLC checks ordering and depth limitation on a tidal beach.'
ASSUMPTIONS = ['external variables are set anew before every time step (masks are applied to them each time)', 'at least one cell is wet when an external model provides the water level']


def run(ctx, only=('lev:', 'ext:'), kinds=('lev', 'ext')):
    ctx.model_check('MC_Hydro', 'MC_Hydro_deep.cfg' if ctx.thorough else 'MC_Hydro.cfg', workers=6)
    ctx.judge('Trace_Hydro', ctx.driver('hydro', *kinds, n=6 if ctx.thorough else 3), chunks=6, only=only)
