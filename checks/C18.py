PROP = dict(
    title='Topography, separation bubbles and fences change the wind as specified',
    statement='A flat bed at any level leaves the wind undisturbed; the perturbed shear stress scales with the wind speed squared, is independent of the datum of '
              'the bed level and never blows against the wind. In one dimension it is the undisturbed stress times the perturbation of the profile (at least 10 '
              'percent), mirrored for wind from the other side. Separation bubbles start at lee slopes steeper than mu_b only, never lie below the bed, and '
              'reduce the shear to zero within 10 cm of their depth. In one dimension the bubble behind a single brink above ground at level 0 falls smoothly, as a cubic, '
              'from the height of the brink to the ground over 1.5 times that height divided by the slope c_b, whatever the size of the cells. Sand fences reduce the shear velocity downwind only, within 20 fence heights, without '
              'turning it; without fences nothing changes. The height of a fence follows the bed, and a fence exposed by more than 1.5 m is lost. Shear stress and '
              'shear velocity always agree in size and direction.',
    quantifier=dict(over=['inputs', 'histories', 'configurations'],
                    text='flat beds at any level; hills, dunes and profiles with or without steep lee sides; all wind directions, grid rotations and positions; '
                         'fences of several heights in a bed that rises and falls'),
    why_tests_cant='The unit tests do not run the shear module on a bed other than one hill; level, direction and rotation all change the path through the code.',
    anchors=dict(files=['aeolis/shear.py', 'aeolis/wind.py', 'aeolis/fences.py'],
                 mechanism=[dict(name='perturbation in two dimensions', where='aeolis/shear.py:WindShear'), dict(name='perturbation in one dimension', where='aeolis/wind.py:compute_shear1d'),
                            dict(name='separation bubbles', where='aeolis/wind.py:separation1d'), dict(name='fences', where='aeolis/fences.py:update_fences')],
                 state=[dict(name='taus, taun, ustar', meaning='shear stress and shear velocity', where="s['taus']"), dict(name='hsep, zsep', meaning='separation bubble', where="s['hsep']"),
                        dict(name='fence_height', meaning='height of fences above the bed', where="s['fence_height']")],
                 observe_at=['wind.shear', 'fences.update_fences', 'fences.update_fence_height'], hook_needed=None))
LEVEL_NOTE = 'TLC checks profile perturbation, bubble and fence life on short profiles; fields of the real code are judged cell by cell, two-dimensional hills by invariants and paired runs; the bubble in one dimension is recomputed for a single brink on ground at level 0.'
ASSUMPTIONS = ['the two-dimensional perturbation itself (Fourier solution) is constrained by invariants, not recomputed', 'profiles have ascending, equidistant coordinates',
               'two-dimensional fences act on an interpolated grid: effects within two cells around them are not attributed']


def run(ctx):
    ctx.model_check('MC_Shear', 'MC_Shear_deep.cfg' if ctx.thorough else 'MC_Shear.cfg', workers=6)
    ctx.judge('Trace_Shear', ctx.driver('shear', n=6 if ctx.thorough else 2), chunks=4)
