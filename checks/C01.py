PROP = dict(
    title='Layered bed exchange conserves sediment per grain fraction',
    statement='For every net pickup or deposit of any size and mixture, the bed update changes the sediment mass of a '
              'cell, per grain fraction, by exactly the net pickup plus what is exchanged with the source below the bed; '
              'every bed layer keeps its total mass and no layer ever holds a negative mass of a fraction. '
              'The bed level (and the water level with tide) rises by the net deposit divided by the bulk density, and composition moves only '
              'between neighbouring layers.',
    quantifier=dict(over=['inputs', 'histories'],
                    text='all bed compositions, numbers of layers and fractions, and sequences of erosion/deposition events of any size, '
                         'including deposits thicker than the layers and mixed-sign pickups'),
    why_tests_cant='No existing test calls the bed update; the example runs only compare a few outputs and never cross '
                   'the burial, mixed-sign and exhausted-layer cases.',
    anchors=dict(files=['aeolis/bed.py'],
                 mechanism=[dict(name='layer exchange', where='aeolis/bed.py:update'),
                            dict(name='case handling for negative masses', where='aeolis/bed.py:prevent_negative_mass')],
                 state=[dict(name='mass', meaning='sediment mass per cell, layer and fraction', where="s['mass']"),
                        dict(name='pickup', meaning='net erosion per fraction in the step', where="s['pickup']")],
                 observe_at=['aeolis.bed.update'], hook_needed=None))
LEVEL_NOTE = ('TLC enumerates all exchange histories of the layer specification within small bounds and replays generated and '
              'random exchanges of the real bed update, each judged cell by cell against the specification. Trusts the '
              'IEEE double evaluation of reals in TLC; single cells are assumed to evolve independently.')
ASSUMPTIONS = ['single cells evolve independently in the layer exchange', 'TLC evaluates the reals as IEEE doubles']


def run(ctx):
    ctx.model_check('MC_BedExchange', 'MC_BedExchange.cfg', workers=6)
    sc = ctx.generate('MC_BedExchange', 'Gen_BedExchange.cfg', 400 if ctx.thorough else 60, 12)
    ev = ctx.driver('bed', scen=ctx.dump_scen(sc), n=1)
    ctx.judge('Trace_Bed', ev, chunks=4)
