PROP = dict(
    title='Time series, normalisation, masks, rotations and grain statistics are exact',
    statement='For every input: circular interpolation is linear between records, repeats with the length of the series plus one second, passes through the records and stays within their values; '
              'several series at once equal each one by itself. Normalisation gives shares that sum to one along the chosen axis (or relative to a reference) and the fill value where nothing is to be shared. '
              'Only negative values smaller than the allowed error are replaced. A complex mask multiplies by its real and adds its imaginary part in every cell, for all further dimensions. Rotations of coordinates turn '
              'clockwise around the origin (all three copies alike), add up and keep distances. Percentiles of the grain size interpolate the cumulative mass of the top layer; the mean is weighted with it. Inputs that are not '
              'meant to change are kept; values written as text read back to the printed precision.',
    quantifier=dict(over=['inputs', 'histories'], text='random series, fields, masks, points and mixtures; sequences of rotations and masks in the model'),
    why_tests_cant='Tests check isiterable, interp_circular and a few helpers on single examples.',
    anchors=dict(files=['aeolis/utils.py', 'aeolis/fences.py', 'aeolis/shear.py'],
                 mechanism=[dict(name='series', where='aeolis/utils.py:interp_circular'), dict(name='shares', where='aeolis/utils.py:normalize'), dict(name='masks', where='aeolis/utils.py:apply_mask'),
                            dict(name='rotation', where='aeolis/utils.py:rotate'), dict(name='mixtures', where='aeolis/utils.py:calc_grain_size')],
                 state=[dict(name='arguments', meaning='arrays given and returned', where='aeolis/utils.py')],
                 observe_at=['results and arguments of the functions'], hook_needed=None))
LEVEL_NOTE = ('TLC checks the laws (rotations and masks compose, series repeat and stay within their records, percentiles are monotonic) on lattices and sequences of operations; the functions of the code are compared '
              'with the closed forms of the specification.')
ASSUMPTIONS = ['coordinates are two-dimensional arrays', 'mixtures have mass; percentiles between 0 and 100; fractions with positive mass', 'when a series starts again, its first and last value are both accepted up to rounding']


def run(ctx):
    ctx.model_check('MC_Util', 'MC_Util_deep.cfg' if ctx.thorough else 'MC_Util.cfg', workers=6)
    ctx.judge('Trace_Util', ctx.driver('small', n=8 if ctx.thorough else 4), chunks=4)
