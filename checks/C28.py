PROP = dict(
    title='Output on disk is self-describing, survives a kill and starts another model',
    statement='The output file has the dimensions of the model, the coordinates of its grid, its grain sizes, and for exactly the requested variables (with their own and the configured statistics) a variable with the '
              'dimensions of that variable in the model and its documented unit; times and time bounds count in seconds since the reference date and are exact for runs of any length. When the process is killed '
              'at any moment outside the writing itself, all records and restart files that were due are on disk, complete, readable and equal to the state of the uninterrupted run. Any time slice dumped from an '
              'output file starts another model (bed composition, bed level or hot start) with exactly the values of that record.',
    quantifier=dict(over=['configurations', 'crash_points', 'histories'], text='all variables and statistics, grids, layers and fractions; all output and restart intervals; every moment of a run outside the writing of a record'),
    why_tests_cant='Tests compare the output of four complete runs with stored files; they never kill a run, run for years, or use output as input.',
    anchors=dict(files=['aeolis/netcdf.py', 'aeolis/model.py', 'aeolis/constants.py'],
                 mechanism=[dict(name='layout', where='aeolis/netcdf.py:initialize'), dict(name='records', where='aeolis/netcdf.py:append'), dict(name='time bounds', where='aeolis/netcdf.py:set_bounds'),
                            dict(name='units', where='aeolis/netcdf.py:parse_metadata'), dict(name='dump', where='aeolis/netcdf.py:dump'), dict(name='restart files', where='aeolis/model.py:AeoLiSRunner.dump_restartfile')],
                 state=[dict(name='output file', meaning='records on disk', where="p['output_file']"), dict(name='restart files', meaning='complete states on disk', where='<output_file>.r<time>')],
                 observe_at=['netCDF file', 'restart files', 'state of a model started with a dumped slice'], hook_needed=None))
LEVEL_NOTE = ('TLC explores every run over output and restart intervals with a kill at every point, and refutes a design that buffers records; the runs it enumerates are replayed in real processes that are killed '
              '(SIGKILL) at the same point, and what is on disk is compared with an uninterrupted run.')
ASSUMPTIONS = ['values are stored in single precision', 'the process is not killed while the netCDF library writes', 'the coordinates x and y are not requested as output variables (they are always there)',
               'two-dimensional grids have at least three rows (the solvers need them)']


def run(ctx):
    ctx.model_check('MC_Output', 'MC_Output_deep.cfg' if ctx.thorough else 'MC_Output.cfg', workers=6)
    ctx.refute('MC_Output', 'MC_Output_buffer.cfg', 'Complete')
    s = ctx.generate('MC_Output', 'Gen_Output.cfg', 1200 if ctx.thorough else 400, 60)
    # complete runs are rare among behaviours that may be killed at every step
    n = 90 if ctx.thorough else 32
    whole, killed = [x for x in s if x['at'] == 'none'], [x for x in s if x['at'] != 'none']
    whole = whole[:n // 6]
    killed = [killed[(k * len(killed)) // (n - len(whole))] for k in range(min(len(killed), n - len(whole)))]
    ctx.judge('Trace_Output', ctx.driver('record', scen=ctx.dump_scen(whole + killed), n=8), chunks=4)
