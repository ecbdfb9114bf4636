PROP = dict(
    title='A model starts in exactly the state its configuration describes, or is refused',
    statement='For every grid (one- or two-dimensional), number of layers and fractions, initialize gives the number of cells of the grid files, the start time, the bed and non-erodible level of their files (no level: '
              'NaN), the configured layer thickness, and in every cell, layer and fraction either the mass given in the bed composition file (any text layout, whole or broken grain distribution) or the full layer split '
              'by the normalized distribution of all layers or of that layer. Masks default to 1, thresholds, vegetation (negative or missing cover is none, height by the square root), fences and wind directions follow '
              'their files; all other state variables are zero. All state variables and their previous values have the shape dimensions() states, at the start and after steps. Incomplete grids, '
              'malformed tables and unknown conventions, schemes, formulations and boundaries raise ValueError (IOError without configuration file, NotImplementedError if not implemented) at the start or in the first step.',
    quantifier=dict(over=['configurations', 'inputs', 'fault_sequences'], text='all options of grid, layers, fractions, composition, conventions and faults, enumerated by TLC; random files'),
    why_tests_cant='Tests start a handful of complete configurations and only look at results at the end.',
    anchors=dict(files=['aeolis/model.py', 'aeolis/bed.py', 'aeolis/inout.py', 'aeolis/wind.py', 'aeolis/vegetation.py', 'aeolis/fences.py', 'aeolis/gridparams.py'],
                 mechanism=[dict(name='start', where='aeolis/model.py:AeoLiS.initialize'), dict(name='bed', where='aeolis/bed.py:initialize'), dict(name='refusal', where='aeolis/inout.py:check_configuration')],
                 state=[dict(name='s, l, p, t', meaning='the model after initialize', where='AeoLiS')],
                 observe_at=['AeoLiS after initialize and after two steps', 'exceptions'], hook_needed=None))
LEVEL_NOTE = ('TLC checks the initial state of every small configuration (full layers, given masses, refusals); the options it enumerates are realized with random files and every variable of the started model is '
              'compared with the state the specification computes.')
ASSUMPTIONS = ['grids are regular here (other grids: C14)', 'static and dynamic angle of repose are scalars in the code']


def run(ctx):
    ctx.model_check('MC_Init', 'MC_Init_deep.cfg' if ctx.thorough else 'MC_Init.cfg', workers=6)
    s = ctx.generate('MC_Init', 'Gen_Init.cfg', 2500 if ctx.thorough else 500, 4)
    ctx.judge('Trace_Init', ctx.driver('start', scen=ctx.dump_scen(s), n=8), chunks=4)
