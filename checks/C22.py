from checks import C07
PROP = dict(
    title='Dune erosion only removes sand above the retreating dune toe',
    statement='Storm erosion (Palmsten and Holman) changes a profile only if there are waves and the total water level (tide plus 1.26 times '
              'runup) exceeds the dune toe. It then lowers consecutive cells from the toe landward to the toe trajectory (or leaves them if '
              'they lie lower), never raises a cell, leaves the beach untouched, and the removed volume is the one closest to the impact volume computed from '
              'the exceedance, the collision probability and the duration. Rows are independent of each other.',
    quantifier=dict(over=['inputs', 'configurations'],
                    text='all one- and two-dimensional profiles, tides, wave heights and periods (including calm), swash statistics, impact coefficients, '
                         'toe elevations, beach slopes and time steps'),
    why_tests_cant='No unit or regression test runs dune erosion.',
    anchors=dict(files=['aeolis/erosion.py', 'aeolis/model.py'],
                 mechanism=[dict(name='dune erosion', where='aeolis/erosion.py:run_ph12')],
                 state=[dict(name='zb', meaning='bed level', where="s['zb']"), dict(name='R', meaning='runup', where="s['R']")],
                 observe_at=['erosion.run_ph12', 'AeoLiS.update'], hook_needed=None))
LEVEL_NOTE = ('TLC checks that storms only erode, and only above the toe, in all histories of a small dune; eroded profiles of the real code '
              '(direct calls and complete time steps) are compared with the specification, which allows any retreat whose volume is equally close.')
ASSUMPTIONS = ['uniform spacing of the profile', 'TLC evaluates the reals as IEEE doubles']


def run(ctx):
    C07.run(ctx, only=('dune',), kinds=['dune'])
