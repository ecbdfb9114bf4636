from checks import C02
PROP = dict(
    title='Output records are complete, ordered and equal the model state',
    statement='For every configuration and history, an output record is written exactly when at least the output interval has passed since the '
              'previous record (and at time zero); record times strictly increase, and time bounds tile the simulated period. '
              'Every variable has one value per record and a record holds the state of the model at its time.',
    quantifier=dict(over=['histories', 'configurations'],
                    text='all interleavings of updates and output calls, all step sizes relative to the output interval, all output variable selections'),
    why_tests_cant='The existing output tests compare single runs of two examples with stored files; other step/interval '
                   'ratios, start times and variable selections are never exercised.',
    anchors=dict(files=['aeolis/model.py', 'aeolis/netcdf.py'],
                 mechanism=[dict(name='output scheduling', where='aeolis/model.py:AeoLiSRunner.output_write'),
                            dict(name='netCDF append', where='aeolis/netcdf.py:append')],
                 state=[dict(name='records', meaning='netCDF time axis', where='aeolis/netcdf.py')],
                 observe_at=['the netCDF file'], hook_needed=None))
LEVEL_NOTE = ('As C02, comparing the netCDF file after every output call with the record sequence of the specification; '
              'values in the file are single precision.')
ASSUMPTIONS = ['netCDF values are single precision']


def run(ctx):
    C02.run(ctx, only=('sched',))
