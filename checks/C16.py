PROP = dict(
    title='Plants sprout, spread, grow, get buried and drown, and shelter the ground',
    statement='Given cover becomes a height hmax*sqrt(cover). Bare cells germinate with the given yearly probability, never where the bed falls; plants expand only to cells with '
              'a neighbour of higher cover. Height (orig) or cover (duranmoore14) grows over the actual time step by the documented rate, less by burial, only in rooted cells; '
              'height and cover stay within 0 and their maxima; a plant that vanishes loses its roots; plants more than 1 cm under water or below the lowest elevation '
              'die at once and nothing grows from nothing. Vegetation reduces the shear velocity (Raupach smoothed; Okin in one dimension) by the documented factor, never raises it (above 0.01), '
              'keeps its direction, leaves it alone on bare ground; the stress follows.',
    quantifier=dict(over=['inputs', 'histories', 'configurations'], text='any cover, bed change, flooding, time step and acceleration; both growth and both shelter models; one and two dimensions'),
    why_tests_cant='The unit tests do not run vegetation; what survives depends on the whole history of burial and flooding, and germination is random.',
    anchors=dict(files=['aeolis/vegetation.py', 'aeolis/wind.py'],
                 mechanism=[dict(name='germination and expansion', where='aeolis/vegetation.py:germinate'), dict(name='growth and death', where='aeolis/vegetation.py:grow'),
                            dict(name='shelter', where='aeolis/vegetation.py:vegshear'), dict(name='initial cover', where='aeolis/vegetation.py:initialize')],
                 state=[dict(name='rhoveg, hveg', meaning='cover and height', where="s['rhoveg']"), dict(name='germinate, lateral', meaning='roots', where="s['germinate']")],
                 observe_at=['vegetation.*', 'AeoLiS.update'], hook_needed=None))
LEVEL_NOTE = ('TLC explores all histories of sprouting, spreading, burial and flooding of a row of cells; each real step is compared with the specification cell by cell, '
              'the random sprouts statistically.')
ASSUMPTIONS = ['sprouts are judged by their number (6 standard deviations plus 12)', 'wind along the row for the Okin model']


def run(ctx):
    ctx.model_check('MC_Veg', 'MC_Veg_deep.cfg' if ctx.thorough else 'MC_Veg.cfg', workers=6)
    ctx.judge('Trace_Veg', ctx.driver('plants', n=8 if ctx.thorough else 3), chunks=6)
