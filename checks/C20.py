PROP = dict(
    title='Models in one process are isolated and their results are repeatable',
    statement='Several models can be used in one process: whatever the interleaving of creating, initializing, stepping and changing them (state and parameters, also in place), every model has the same time, '
              'state, parameters, counters, statistics and output file as when the same operations are applied to it alone, an operation on one model does not touch any other model, and creating a model again '
              'starts afresh. The same configuration gives the same results every time. The shared default configuration and variable declarations are never changed.',
    quantifier=dict(over=['schedules', 'histories', 'configurations'], text='interleavings of up to 16 operations on up to three models with equal or different configurations out of ten'),
    why_tests_cant='Each test uses one model per process or compares with itself; hidden state shared between models only shows for particular interleavings.',
    anchors=dict(files=['aeolis/model.py', 'aeolis/inout.py', 'aeolis/constants.py', 'aeolis/bed.py', 'aeolis/wind.py'],
                 mechanism=[dict(name='construction', where='aeolis/model.py:AeoLiS.__init__'), dict(name='defaults', where='aeolis/inout.py:read_configfile'),
                            dict(name='step', where='aeolis/model.py:AeoLiS.update'), dict(name='statistics', where='aeolis/model.py:AeoLiSRunner.output_update')],
                 state=[dict(name='s, l, p, c, o', meaning='everything a model owns', where='AeoLiSRunner'), dict(name='DEFAULT_CONFIG', meaning='shared defaults', where='aeolis/constants.py')],
                 observe_at=['AeoLiSRunner.__init__', 'AeoLiS.initialize', 'AeoLiS.update', 'AeoLiSRunner.output_write'], hook_needed=None))
LEVEL_NOTE = ('TLC explores interleavings of models that own or share cells of a heap (and refutes the design in which parameters are not copied); its behaviours are replayed on real models, '
              'compared after every operation with the same model alone in a process of its own.')
ASSUMPTIONS = ['random numbers are seeded per operation', 'states are compared by weighted sums (relative 1e-9), untouched models by hash']


def run(ctx):
    ctx.model_check('MC_Isolation', 'MC_Isolation_deep.cfg' if ctx.thorough else 'MC_Isolation.cfg', workers=6)
    ctx.refute('MC_Isolation', 'MC_Isolation_shared.cfg', 'Independent')
    s = ctx.generate('MC_Isolation', 'Gen_Isolation.cfg', 64 if ctx.thorough else 16, 17)
    ctx.judge('Trace_Isolation', ctx.driver('isolate', scen=ctx.dump_scen(s), n=8), chunks=4)
