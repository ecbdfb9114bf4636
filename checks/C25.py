PROP = dict(
    title='A complete run equals starting and stepping the model by hand',
    statement='AeoLiSRunner.run, from whatever folder it is called, runs the model in the folder of its configuration file and returns to the folder it was called from. Parameters changed with set_params are '
              'written to the configuration file (after a copy of the old one) and used. Hot start files (<variable>.hotstart, any layout of the values) replace exactly the variables they name, unknown names are '
              'ignored; a restart file replaces the complete state instead. The callback (a function, file:function as argument or in the configuration) is called exactly once before every step with the '
              'current model, and what it changes takes effect. State, parameters, counters, statistics and output file equal those of the same model initialized and stepped by hand; the run ends with the '
              'first step that passes the end time. A missing configuration, restart or callback file raises IOError before any step.',
    quantifier=dict(over=['configurations', 'histories', 'fault_sequences'], text='all combinations of start files, callbacks, folders, changed parameters and missing files; random models with all processes'),
    why_tests_cant='Tests run complete simulations without hot start, restart or callbacks and only look at the output file.',
    anchors=dict(files=['aeolis/model.py', 'aeolis/inout.py'],
                 mechanism=[dict(name='run', where='aeolis/model.py:AeoLiSRunner.run'), dict(name='hot start', where='aeolis/model.py:AeoLiSRunner.load_hotstartfiles'),
                            dict(name='restart', where='aeolis/model.py:AeoLiSRunner.load_restartfile'), dict(name='callback', where='aeolis/model.py:AeoLiSRunner.parse_callback'),
                            dict(name='parameters', where='aeolis/model.py:AeoLiSRunner.write_params')],
                 state=[dict(name='s, p, t, cwd', meaning='the model and the working directory', where='AeoLiSRunner')],
                 observe_at=['the callback', 'AeoLiSRunner after run', 'netCDF file', 'configuration file and its backup'], hook_needed=None))
LEVEL_NOTE = ('TLC explores all runs over the options (start files, callbacks, folders, missing files) for order, number of calls, source of every variable and termination; the options it enumerates are replayed on '
              'real runs and compared call by call with the same model stepped by hand.')
ASSUMPTIONS = ['states are compared by weighted sums (relative 1e-9)', 'random numbers are seeded alike in both', 'folders are not restored after an error']


def run(ctx):
    ctx.model_check('MC_Run', 'MC_Run_deep.cfg' if ctx.thorough else 'MC_Run.cfg', workers=6)
    s = ctx.generate('MC_Run', 'Gen_Run.cfg', 160 if ctx.thorough else 56, 30)
    ctx.judge('Trace_Run', ctx.driver('whole', scen=ctx.dump_scen(s), n=8), chunks=4)
