from checks.C13 import run as _run
PROP = dict(
    title='Moisture and salt at the surface follow flooding, rain, drying and rise',
    statement='Cells below the total water level are saturated with water (and with salt); other cells dry with the half-life Tdry, never wetter than before, within '
              '0 and the porosity (infiltration); or drain above field capacity, gain rain and lose evaporation (Penman) within residual and satiated moisture and never '
              'fall below the capillary moisture for their height above the groundwater (surf_moisture). Capillary moisture follows van Genuchten: the wetting or drying '
              'curve, or with scanning curves one between both, which starts where the table turned at the moisture of that moment and is left where it meets the main curve. '
              'Salt decays with the half-life Tsalt and stays within 0 and 1; deeper layers keep their salt.',
    quantifier=dict(over=['inputs', 'histories', 'configurations'], text='any bed, water level and groundwater history with turns on main and scanning curves; rain, drought, heat and frost'),
    why_tests_cant='The unit tests do not run a moisture process; hysteresis depends on the whole history of the groundwater level.',
    anchors=dict(files=['aeolis/hydro.py'],
                 mechanism=[dict(name='surface moisture', where='aeolis/hydro.py:update'), dict(name='retention curves', where='aeolis/hydro.py:SWR_curve'),
                            dict(name='suction at reversal', where='aeolis/hydro.py:hdelta'), dict(name='evaporation', where='aeolis/hydro.py:evaporation')],
                 state=[dict(name='moist, moist_swr', meaning='surface and capillary moisture', where="s['moist']"), dict(name='scan_w, scan_d, h_delta', meaning='scanning curves', where="s['h_delta']"),
                        dict(name='salt', meaning='salt content', where="s['salt']")],
                 observe_at=['hydro.update'], hook_needed=None))
LEVEL_NOTE = 'Each step of each cell is judged by its recorded state before and after; TLC checks bounds, the choice of curves and continuity over all tidal histories of a small beach.'
ASSUMPTIONS = ['the iterative solution for the suction at reversal is accurate to 0.01 in moisture, as in the code', 'wind is measured at a height above 2 m (Penman)']


def run(ctx):
    _run(ctx, only=('inf:', 'salt:', 'surf:'), kinds=('inf', 'surf'))
