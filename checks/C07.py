PROP = dict(
    title='An exposed non-erodible layer supplies no sediment and the bed stays above it',
    statement='With the non-erodible layer enabled, a cell whose cover at the start of a time step is at most 1 cm has zero saturation '
              'concentrations (both the bed and the air-driven one) for every fraction, transport formulation and solver and gives no sediment to the air; '
              'it is not lowered unless it avalanches. With a top bed layer of at most 1 cm no time step leaves any cell below the non-erodible '
              'layer, also when avalanching is active.',
    quantifier=dict(over=['inputs', 'histories', 'configurations'],
                    text='all beds at or above the layer (bare, thin and thick cover next to each other), one and two dimensions, one or three fractions, '
                         'all transport formulations, the trunk, pieter and steady state solvers, grid spacing of at least 1 m'),
    why_tests_cant='No unit test has a non-erodible layer; the bound has to hold after every step of every history and the layer must shield against both thresholds.',
    anchors=dict(files=['aeolis/threshold.py', 'aeolis/transport.py', 'aeolis/avalanching.py', 'aeolis/model.py'],
                 mechanism=[dict(name='infinite threshold', where='aeolis/threshold.py:non_erodible'),
                            dict(name='slide limit', where='aeolis/avalanching.py:avalanche')],
                 state=[dict(name='zne', meaning='top of the non-erodible layer', where="s['zne']"),
                        dict(name='zb', meaning='bed level', where="s['zb']")],
                 observe_at=['AeoLiS.update'], hook_needed=None))
LEVEL_NOTE = ('TLC checks the bound on all histories of wind, waves, resets and storms over small rows of cells; multi-step runs of the real '
              'model over mixed covers are judged step by step.')
ASSUMPTIONS = ['the weight iteration of the solver converges (see C05), so a step takes at most the top layer']
ONLY = ('ne',)
KINDS = ['ne']


def run(ctx, only=ONLY, kinds=KINDS):
    ctx.model_check('MC_Surface', 'MC_Surface_deep.cfg' if ctx.thorough else 'MC_Surface.cfg', workers=6)
    ctx.judge('Trace_Surface', ctx.driver('surface', *kinds, n=4 if ctx.thorough else 2), chunks=4, only=only)
