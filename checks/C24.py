from checks import C07
PROP = dict(
    title='Wave mixing conserves fractions; wet bed reset and averages stay in bounds',
    statement='Mixing by waves replaces the composition of the top layers down to the depth of disturbance by their average (in proportion if the '
              'disturbance is deeper than the layers); it conserves the mass of every fraction in every cell and leaves deeper layers untouched. '
              'Resetting wet beds moves only cells that are at least 1 cm under water, towards their initial level and never beyond it. '
              'The bed level change is the difference between the bed levels of successive steps, its yearly rate counts the accelerated duration, and '
              'the moving average lies between the previous average and the latest rate.',
    quantifier=dict(over=['inputs', 'configurations'],
                    text='all layer masses (including empty fractions), layer thicknesses, wave heights from none to deeper than all layers, water levels, '
                         'time steps shorter and longer than the reset and averaging periods'),
    why_tests_cant='No unit test calls these functions; the regression cases compare final states of one configuration.',
    anchors=dict(files=['aeolis/bed.py'],
                 mechanism=[dict(name='mixing', where='aeolis/bed.py:mixtoplayer'), dict(name='reset', where='aeolis/bed.py:wet_bed_reset'),
                            dict(name='average', where='aeolis/bed.py:average_change')],
                 state=[dict(name='mass', meaning='sediment mass per layer and fraction', where="s['mass']"),
                        dict(name='dzbavg', meaning='average bed level change', where="s['dzbavg']")],
                 observe_at=['bed.mixtoplayer', 'bed.wet_bed_reset', 'bed.average_change'], hook_needed=None))
LEVEL_NOTE = ('TLC checks conservation and the direction of the reset on all histories of a small bed; calls of the real functions are compared '
              'cell by cell with the specification.')
ASSUMPTIONS = ['TLC evaluates the reals as IEEE doubles']


def run(ctx):
    C07.run(ctx, only=('mix', 'wet', 'avg'), kinds=['mix', 'wet'])
