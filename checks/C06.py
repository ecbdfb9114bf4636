from checks import C05
PROP = dict(
    title='Solved concentrations satisfy the advection equation and sediment budget',
    statement='For every solver, scheme, grid and wind field, the returned concentrations satisfy the upwind-discretised advection equation with the '
              'implicitness of the scheme in every cell that no limiter touched; the outer columns and rows follow their own '
              'boundary condition (circular, prescribed flux, gradient or constant along the shore); pickup equals (w*Cu - C)*dt/T (at most the supply), so in fully implicit steps what leaves the bed is '
              'what arrives in the air or crosses the boundaries; where nothing can be transported the concentration settles. The reported fluxes '
              'are the concentration times the velocity, and the bed level changes by the negative net pickup divided by the bulk density.',
    quantifier=dict(over=['inputs', 'histories', 'configurations'],
                    text='all wind fields, one or three and more grid rows, uniform and stretched grids, the four solvers with the boundary conditions each implements '
                         '(flux, constant, uniform, gradient, no flux; circular, flux, gradient, constant along the shore), 0 <= implicitness <= 1'),
    why_tests_cant='No unit test solves the transport equation; the example runs use few directions and boundary conditions and '
                   'only compare final states with stored ones.',
    anchors=dict(files=['aeolis/model.py'],
                 mechanism=[dict(name='solvers', where='aeolis/model.py:AeoLiS.solve, solve_steadystate, solve_pieter, solve_steadystatepieter')],
                 state=[dict(name='Ct', meaning='sediment concentration', where="s['Ct']"),
                        dict(name='qs, qn', meaning='sediment fluxes', where="s['qs'], s['qn']")],
                 observe_at=['euler_forward/euler_backward/crank_nicolson of AeoLiS', 'AeoLiS.update'], hook_needed=None))
LEVEL_NOTE = ('As C05; the judged clauses are the residual of the equation per cell, boundary columns, pickup, deposition and fluxes. Cells where '
              'the code cut off negative concentrations are not judged; the cell-based solvers are judged with circular lateral boundaries, the face-based ones with all four.')
ASSUMPTIONS = C05.ASSUMPTIONS + ['the residual tolerance is a few times max_error']


def run(ctx):
    C05.run(ctx, only=('budget',))
