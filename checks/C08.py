PROP = dict(
    title='Avalanching conserves sand, respects the non-erodible layer and comes to rest',
    statement='Avalanching starts only if the steepest downward slope exceeds the static angle of repose, and leaves the bed untouched otherwise. '
              'Once it runs, every slide moves sand from cells to their lower neighbours only: the total volume changes by exactly what slides onto '
              'the outermost cells, which never change themselves; no cell is lowered below the non-erodible layer (without such a layer all sand can '
              'move); no new peak or pit appears; and given enough iterations every cell that is not held by the non-erodible layer ends no steeper '
              'than the dynamic angle of repose. The result does not depend on the direction in which the bed slopes.',
    quantifier=dict(over=['inputs', 'configurations'],
                    text='one-row beds and beds of three or more rows with uniform spacing of at least 1 m, all shapes, static angles of 30-40 degrees '
                         'with dynamic angles at or below them, with and without a non-erodible layer at or below the bed'),
    why_tests_cant='No unit test covers avalanching and no regression case has slopes above the angle of repose.',
    anchors=dict(files=['aeolis/avalanching.py', 'aeolis/model.py'],
                 mechanism=[dict(name='slides', where='aeolis/avalanching.py:avalanche'),
                            dict(name='gradients', where='aeolis/avalanching.py:calc_gradients')],
                 state=[dict(name='zb', meaning='bed level', where="s['zb']"),
                        dict(name='zne', meaning='top of the non-erodible layer', where="s['zne']")],
                 observe_at=['avalanching.avalanche', 'AeoLiS.update'], hook_needed=None))
LEVEL_NOTE = ('TLC follows all small beds (one and three rows, with and without a floor) to rest and checks conservation, floor, peaks and pits; '
              'single slides and complete avalanches of the real code, called directly and through AeoLiS.update, are judged cell by cell.')
ASSUMPTIONS = ['uniform grid spacing of at least 1 m (the slide rate of the code does not scale with the spacing)', 'TLC evaluates the reals as IEEE doubles']


def run(ctx):
    ctx.model_check('MC_Avalanche', 'MC_Avalanche_deep.cfg' if ctx.thorough else 'MC_Avalanche.cfg', workers=6)
    ctx.judge('Trace_Avalanche', ctx.driver('avalanche', n=4 if ctx.thorough else 2), chunks=4)
