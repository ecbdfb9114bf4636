from checks.C13 import run as _run
PROP = dict(
    title='The groundwater table obeys the Boussinesq equation and its boundaries',
    statement='In every time step the groundwater table of each row advances over the whole time step by the nonlinear Boussinesq equation (fourth order Runge-Kutta '
              'over the configured number of sub-steps), between the level of the sea with set-up at the shoreline of that row and a no-flow or fixed landward boundary, plus '
              'the overheight of infiltrating runup and the mask. It never rises above dry ground, equals the water level where the bed is below it, and the code '
              'remembers the table of the previous step and whether it rose. Rows that are entirely dry or under water are handled; unknown boundary conditions are refused.',
    quantifier=dict(over=['inputs', 'histories', 'configurations'], text='any bed, tide and waves, one or more rows with shorelines at different places, both landward boundaries, with and without seepage face'),
    why_tests_cant='The unit tests do not run groundwater; errors show in rows with different shorelines, fractional sub-steps or beds outside the tidal range.',
    anchors=dict(files=['aeolis/hydro.py'],
                 mechanism=[dict(name='time stepping', where='aeolis/hydro.py:update'), dict(name='Boussinesq', where='aeolis/hydro.py:Boussinesq'),
                            dict(name='runup overheight', where='aeolis/hydro.py:runup_overheight_distr')],
                 state=[dict(name='gw, gw_prev', meaning='groundwater level now and before', where="s['gw']"), dict(name='wetting', meaning='the table rose in the previous step', where="s['wetting']")],
                 observe_at=['AeoLiS.update'], hook_needed=None))
LEVEL_NOTE = 'The scheme is explicit and recomputed by the specification for every step; TLC checks rest, extremes and caps on a tidal beach.'
ASSUMPTIONS = ['cells and sub-steps for which the explicit scheme is stable', 'the overheight is added once per sub-step, as in the code']


def run(ctx):
    _run(ctx, only=('gw:',), kinds=('gw',))
