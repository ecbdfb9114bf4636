PROP = dict(
    title='Time steps are positive, within limits, and runs cover the simulation',
    statement='Every update advances the clock by a strictly positive amount that is at most the requested step (times the acceleration '
              'factor), respects the CFL limit of explicit schemes and the maximum bed-level-change limit, and counts as exactly one step. '
              'A negative request below -1 skips that time span and a wind-free explicit step still advances the clock. A complete run ends just '
              'after the stop time and calls the callback exactly once per step, at the start of the step.',
    quantifier=dict(over=['histories', 'configurations', 'inputs'],
                    text='all sequences of update calls with any argument, all schemes, wind series (including lulls and calms), '
                         'start times, acceleration factors and limits'),
    why_tests_cant='Existing tests only run the example cases to completion with default stepping; they never look at the step, and never '
                   'mix explicit schemes, limits, skips and calms.',
    anchors=dict(files=['aeolis/model.py'],
                 mechanism=[dict(name='time step limitation', where='aeolis/model.py:AeoLiS.set_timestep'),
                            dict(name='update', where='aeolis/model.py:AeoLiS.update, AeoLiSRunner.update'),
                            dict(name='run loop', where='aeolis/model.py:AeoLiSRunner.run')],
                 state=[dict(name='clock', meaning='simulation time', where='AeoLiS.t')],
                 observe_at=['AeoLiSRunner.update', 'get_current_time', 'callbacks'], hook_needed=None))
LEVEL_NOTE = ('TLC checks the runner specification exhaustively for all short operation sequences, and validates histories of the real runner '
              '(generated by the specification and random) against its actions. The Courant rate and bed change of each step are '
              'observed from the code, not modelled.')
ASSUMPTIONS = ['the Courant rate and the bed level change of each step are observed, not modelled']
ONLY = ('time',)


def run(ctx, only=ONLY):
    ctx.model_check('MC_Runner', 'MC_Runner_deep.cfg' if ctx.thorough else 'MC_Runner.cfg', workers=6)
    sc = ctx.generate('MC_Runner', 'Gen_Runner.cfg', 120 if ctx.thorough else 40, 14)
    ev = ctx.driver('runner', scen=ctx.dump_scen(sc))
    ctx.judge('Trace_Runner', ev, chunks=4, only=only)
