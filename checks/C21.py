PROP = dict(
    title='Grid metrics, orientation and results do not depend on how the grid lies',
    statement='Cell sizes and areas are the distances between grid points, and the orientation is that of the rows, for every position and orientation of a '
              'rectangular grid. Rotating the state turns the grid around its centre and all vector fields by the angle and leaves scalars alone; after '
              'every executed or skipped time step grid and wind are where they were. A simulation without wind-topography interaction gives the same results '
              'when the grid and the wind are rotated or translated together or mirrored, and rows that do not differ behave like a single row.',
    quantifier=dict(over=['inputs', 'histories', 'configurations'],
                    text='one- and two-dimensional grids with different spacing along and across rows, any rotation and origin; executed and skipped steps; '
                         'all solvers and schemes, one or more fractions, tide, moisture, roughness, non-erodible layers and avalanching'),
    why_tests_cant='The unit tests use one or two square, unrotated grids; a swapped spacing or a sign of a rotation needs a particular orientation to show.',
    anchors=dict(files=['aeolis/bed.py', 'aeolis/model.py', 'aeolis/utils.py'],
                 mechanism=[dict(name='metrics', where='aeolis/bed.py:initialize'), dict(name='rotation', where='aeolis/model.py:AeoLiS.grid_rotate'),
                            dict(name='rotate', where='aeolis/utils.py:rotate'), dict(name='step', where='aeolis/model.py:AeoLiS.update')],
                 state=[dict(name='ds, dn, dsdn', meaning='cell metrics', where="s['ds']"), dict(name='alpha', meaning='orientation of the grid', where="p['alpha']")],
                 observe_at=['bed.initialize', 'AeoLiS.grid_rotate', 'AeoLiS.update'], hook_needed=None))
LEVEL_NOTE = 'TLC checks the geometry on integer grids and quarter turns; pairs of real simulations related by a symmetry are compared against the specification.'
ASSUMPTIONS = ['the shear perturbation over topography (process_shear) is resolved on its own grid and is excluded from the invariance',
               'rows are a single row for winds along the grid, a row width of one metre and closed circular sides']


def run(ctx):
    ctx.model_check('MC_Grid', 'MC_Grid_deep.cfg' if ctx.thorough else 'MC_Grid.cfg', workers=6)
    ctx.judge('Trace_Grid', ctx.driver('plane', n=4 if ctx.thorough else 2), chunks=4)
