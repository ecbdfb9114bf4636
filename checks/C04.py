from checks import C02
PROP = dict(
    title='Output statistics equal the statistics of the steps since the last record',
    statement='The average, sum, variance, minimum and maximum reported for a variable are those of exactly the time steps since the '
              'statistics were last cleared, for every selection of statistics. They are cleared after every output record and, on request, after reading '
              'a statistic.',
    quantifier=dict(over=['histories', 'configurations'],
                    text='all interleavings of updates, output calls and reads of statistics, and all selections of variables and statistics'),
    why_tests_cant='No existing test reads a statistic; the window semantics depends on the order of updates, reads and records.',
    anchors=dict(files=['aeolis/model.py', 'aeolis/netcdf.py'],
                 mechanism=[dict(name='accumulators', where='aeolis/model.py:AeoLiSRunner.output_update, output_clear, output_init'),
                            dict(name='statistics', where='aeolis/model.py:AeoLiSRunner.get_statistic')],
                 state=[dict(name='window', meaning='steps since last clear', where='AeoLiSRunner.o, AeoLiSRunner.n')],
                 observe_at=['AeoLiSRunner.get_var', 'AeoLiSRunner.get_statistic', 'the netCDF file'], hook_needed=None))
LEVEL_NOTE = ('As C02: the specification keeps the full window of grids, the accumulators are shown equal to it by TLC, and every reported '
              'statistic of recorded histories is compared with the window.')
ASSUMPTIONS = ['netCDF values are single precision', 'one-pass variance is allowed cancellation error relative to the mean square']


def run(ctx):
    C02.run(ctx, only=('stat',))
