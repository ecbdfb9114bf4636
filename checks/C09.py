PROP = dict(
    title='A run resumed from a restart file continues as if never interrupted',
    statement='Restart files are written whenever the restart interval has passed since the previous one (or since the file resumed from), named by their time. A run that is killed after any step and resumed '
              'from any of its restart files, also repeatedly, has at every later step the same time, time step, model state, previous state, parameters and counters as the uninterrupted run, '
              'for all processes with a memory (bed layers, moisture hysteresis, groundwater, salt, vegetation, fences, avalanches, shear, bed change limits), and writes the same later restart files. '
              'Missing or truncated restart files are rejected with an error and leave the initialized state alone. (The output file and its statistics start anew.)',
    quantifier=dict(over=['crash_points', 'histories', 'configurations'], text='any crash after a time step, any restart file written before, repeated crashes; ten process configurations'),
    why_tests_cant='No test reads a restart file; equivalence concerns every crash point and everything a later step depends on.',
    anchors=dict(files=['aeolis/model.py'],
                 mechanism=[dict(name='writing', where='aeolis/model.py:AeoLiSRunner.dump_restartfile'), dict(name='loading', where='aeolis/model.py:AeoLiSRunner.load_restartfile'),
                            dict(name='schedule', where='aeolis/model.py:AeoLiSRunner.output_write')],
                 state=[dict(name='t, dt, s, l, p, c', meaning='content of a restart file', where='AeoLiSRunner.dump_restartfile'), dict(name='trestart', meaning='time of the last restart file', where='self.trestart')],
                 observe_at=['AeoLiSRunner.run', 'AeoLiSRunner.update'], hook_needed=None))
LEVEL_NOTE = ('TLC explores crashes at any point and resumption from any file of a runner whose steps depend on all it saves (and refutes a design that does not save the time step); '
              'its behaviours are replayed on real models, compared step by step with an uninterrupted run.')
ASSUMPTIONS = ['states are compared by weighted sums of each array (relative 1e-9)', 'random numbers are the same in both runs at the same step', 'crashes happen between steps']


def run(ctx):
    ctx.model_check('MC_Restart', 'MC_Restart_deep.cfg' if ctx.thorough else 'MC_Restart.cfg', workers=6)
    ctx.refute('MC_Restart', 'MC_Restart_lossy.cfg', 'FilesOnTrack')
    s = ctx.generate('MC_Restart', 'Gen_Restart.cfg', 96 if ctx.thorough else 24, 15)
    ctx.judge('Trace_Restart', ctx.driver('restart', scen=ctx.dump_scen(s), n=8), chunks=4)
