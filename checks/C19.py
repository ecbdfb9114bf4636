from checks import C17
PROP = dict(
    title='Thresholds and saturation concentrations follow the current state only',
    statement='The shear velocity threshold of every cell and fraction is the documented composition of grain size, soil moisture (all methods), water, salt, '
              'sheltering, mask and non-erodible layer, evaluated on the current state: nothing of an earlier step remains. A prescribed threshold '
              'replaces the computed one. The saturation concentrations are those of the chosen transport formulation with their own '
              'threshold and shear velocity (bed, fluid, flat bed), scale with the acceleration factor, are never negative and are exactly zero where the shear '
              'velocity does not exceed the threshold, or where the air or the grains stand still. The speed of the grains is that of the wind, of one metre '
              'per second, or of Duran\'s formula for grain size, shear, bed slope and separation bubbles. Unknown methods are rejected.',
    quantifier=dict(over=['inputs', 'histories', 'configurations'],
                    text='all moisture contents, water levels, salt contents, masks, beds and winds in any sequence of steps, all moisture and transport methods, one to three fractions'),
    why_tests_cant='No unit test calls these functions; leakage of earlier states shows only in histories, and the formulas hold per cell and fraction.',
    anchors=dict(files=['aeolis/threshold.py', 'aeolis/transport.py'],
                 mechanism=[dict(name='threshold', where='aeolis/threshold.py:compute'), dict(name='saturation concentration', where='aeolis/transport.py:equilibrium'), dict(name='grain speed', where='aeolis/transport.py:duran_grainspeed, constant_grainspeed')],
                 state=[dict(name='uth', meaning='shear velocity threshold', where="s['uth']"), dict(name='Cu', meaning='saturation concentration', where="s['Cu']")],
                 observe_at=['threshold.compute', 'transport.equilibrium'], hook_needed=None))
LEVEL_NOTE = 'TLC compares the stepwise threshold with its closed form and checks sign, zero and monotony of all formulations; real results are compared per cell and fraction.'
ASSUMPTIONS = ['the grain size based threshold is switched on (th_grainsize), as the other processes modify it']


def run(ctx):
    C17.run(ctx, ('thr', 'equ', 'err'), ('thr', 'equ'))
