PROP = dict(
    title='Wind speed, direction, grid components and shear follow the wind series',
    statement='At every time the wind speed is the linear interpolation of the wind series and the direction is interpolated along the shorter arc; beyond '
              'the last record the series continues periodically. Nautical and cartesian directions mean the same wind. The components along the grid '
              'have the magnitude of the wind speed and point where the wind blows to, for every grid orientation parameter. The shear velocity follows the '
              'logarithmic profile with the roughness of the chosen method, and the shear stress equals air density times shear velocity squared along '
              'the wind; the flat bed values are those of the undisturbed wind.',
    quantifier=dict(over=['inputs', 'histories', 'configurations'],
                    text='wind series of any length and direction (crossing north, negative, above 360 degrees, calms), times in, between and beyond the records, '
                         'both conventions, all roughness methods, one or more fractions, one and two dimensions'),
    why_tests_cant='The unit tests check a few speeds and directions of one series; wrap-around, shortest arc and conventions have to agree for all of them.',
    anchors=dict(files=['aeolis/wind.py', 'aeolis/utils.py'],
                 mechanism=[dict(name='time series', where='aeolis/utils.py:interp_circular'), dict(name='decomposition', where='aeolis/wind.py:interpolate'),
                            dict(name='convention', where='aeolis/wind.py:initialize'), dict(name='roughness', where='aeolis/wind.py:calculate_z0')],
                 state=[dict(name='uws, uwn', meaning='wind components along the grid', where="s['uws']"), dict(name='ustar', meaning='shear velocity', where="s['ustar']")],
                 observe_at=['wind.initialize', 'wind.interpolate'], hook_needed=None))
LEVEL_NOTE = 'TLC checks range, periodicity, arc and components on the model; fields computed by the real code are compared cell by cell with it.'
ASSUMPTIONS = ['directions whose interpolated vector vanishes (opposite winds half way) are not compared', 'a wind of exactly 0 (nautical) or 270 (cartesian) degrees is turned by 0.01 degree by design']


def run(ctx, only=('wind',), kinds=('wind',)):
    ctx.model_check('MC_Forcing', 'MC_Forcing_deep.cfg' if ctx.thorough else 'MC_Forcing.cfg', workers=6)
    ctx.judge('Trace_Forcing', ctx.driver('forcing', *kinds, n=4 if ctx.thorough else 2), chunks=4, only=only)
