PROP = dict(
    title='Equivalent descriptions of a case give the same simulation',
    statement='Two runs of which one follows from the other by a change of description only have equivalent states, statistics and output at every step: all times moved by the same amount; as long as the bed does '
              'not run out of a fraction, the grain fractions listed in another order, divided into parts of the same size or extended with a fraction that is absent (quantities of a fraction are divided in proportion, everything else is equal); the time series with '
              'additional records on the line between two records or repeated after its period; the wind direction given in the other convention; an alongshore uniform beach given by one or several rows; defaults '
              'written out, in any order of the lines; other output intervals, variables, statistics and restart files, and reading the state, statistics and progress between the steps.',
    quantifier=dict(over=['configurations', 'inputs', 'histories'], text='all compositions of the changes, all solvers, schemes and processes (uniform beaches: without fences, avalanching and plants)'),
    why_tests_cant='Every test runs one description of a case; no test compares two runs, so that a dependence on the order of fractions, on the time origin or on being observed stays unseen.',
    anchors=dict(files=['aeolis/model.py', 'aeolis/transport.py', 'aeolis/bed.py', 'aeolis/wind.py', 'aeolis/utils.py', 'aeolis/hydro.py', 'aeolis/threshold.py'],
                 mechanism=[dict(name='weights of the fractions', where='aeolis/transport.py:compute_weights, renormalize_weights'), dict(name='mass of the fractions', where='aeolis/bed.py:update'),
                            dict(name='time series', where='aeolis/utils.py:interp_circular'), dict(name='rows', where='aeolis/model.py:AeoLiS.solve'), dict(name='reading', where='aeolis/model.py:AeoLiSRunner.get_var')],
                 state=[dict(name='complete state', meaning='all variables of the model, statistics and output', where='AeoLiS.s, AeoLiSRunner.o, output file')],
                 observe_at=['model state', 'statistics', 'output file'], hook_needed=None))
LEVEL_NOTE = ('TLC runs a transport model with a layered bed and its image under every composition of two maps in lockstep, proves the image of the state, and refutes designs that serve fractions in order or treat time zero '
              'differently; the same compositions are replayed on pairs of real runs, whose complete states are compared through the map of the specification.')
ASSUMPTIONS = ['where the bed runs out of a fraction what is left over is offered to those listed later (as documented: ascending grain size) and the weights follow the iterates of the solver, so that such runs are not compared under changed fractions',
               'moved runs do not start at time zero (the first step at time zero uses the initial grain distribution as weights, as documented)',
               'roughness and sheltering methods that interpolate between listed fractions (percentiles) are not used with changed fractions',
               'the supply limit is solved to 1e-11 (max_error), because the accuracy of the iteration is that of a fraction', 'wind over topography (FFT) is only compared under changes that are exact in floating point']


def run(ctx):
    ctx.model_check('MC_Symmetry', 'MC_Symmetry_deep.cfg' if ctx.thorough else 'MC_Symmetry.cfg', workers=6)
    ctx.refute('MC_Symmetry', 'MC_Symmetry_order.cfg', 'Equivalent')
    ctx.refute('MC_Symmetry', 'MC_Symmetry_zero.cfg', 'Equivalent')
    ctx.refute('MC_Symmetry', 'MC_Symmetry_short.cfg', 'OrderIsFree')
    s = ctx.generate('MC_Symmetry', 'Gen_Symmetry.cfg', 1600 if ctx.thorough else 280, 8)
    ctx.judge('Trace_Symmetry', ctx.driver('twin', scen=ctx.dump_scen(s), n=8), chunks=6)
