PROP = dict(
    title='Transport never takes more sediment than the bed holds and stays non-negative',
    statement='For every solver and scheme, grid, wind field, grain composition and time step, solving the transport equation returns finite, '
              'non-negative sediment concentrations per fraction; the weights of the fractions lie between zero and one and add up to at most one '
              'in every cell; and the pickup of a fraction never exceeds the mass of that fraction in the top bed layer (up to max_error) as long as '
              'the weight iteration converges, so the bed never ends a step with a negative mass. The weights start '
              'from the bed and air composition blended with the bed interaction factor, and renormalising keeps the earlier fractions\' share.',
    quantifier=dict(over=['inputs', 'histories', 'configurations'],
                    text='all wind fields (uniform, mixed sign, with calm cells), supplies including exhausted fractions, one or three and more grid rows, '
                         'one to three fractions, the four solvers, three schemes and all boundary conditions that each solver implements, dt/T within the '
                         'range in which the iteration of the weights converges within max_iter'),
    why_tests_cant='The unit tests cover no solver and the example runs compare final states with stored ones; supply limitation of several '
                   'fractions at once, exhausted fractions and opposing winds do not occur in them.',
    anchors=dict(files=['aeolis/model.py', 'aeolis/transport.py'],
                 mechanism=[dict(name='solvers', where='aeolis/model.py:AeoLiS.solve, solve_steadystate, solve_pieter, solve_steadystatepieter'),
                            dict(name='weights', where='aeolis/transport.py:compute_weights, renormalize_weights')],
                 state=[dict(name='Ct', meaning='sediment concentration', where="s['Ct']"),
                        dict(name='w', meaning='weights of fractions', where="s['w']"),
                        dict(name='pickup', meaning='sediment taken from the bed', where="s['pickup']")],
                 observe_at=['euler_forward/euler_backward/crank_nicolson of AeoLiS', 'AeoLiS.update'], hook_needed=None))
LEVEL_NOTE = ('TLC checks all histories of a chain of cells for non-negativity, supply and budget; generated histories and random states are solved '
              'by the real code and every solution is judged against the specification by TLC.')
ASSUMPTIONS = ['the Courant and iteration limits of the code bound dt', 'TLC evaluates the reals as IEEE doubles']
ONLY = ('supply',)


def run(ctx, only=ONLY):
    ctx.model_check('MC_Transport', 'MC_Transport_deep.cfg' if ctx.thorough else 'MC_Transport.cfg', workers=6)
    sc = ctx.generate('MC_Transport', 'Gen_Transport.cfg', 120 if ctx.thorough else 25, 6)
    ev = ctx.driver('solver', scen=ctx.dump_scen(sc), n=6 if ctx.thorough else 2)
    ctx.judge('Trace_Transport', ev, chunks=4, only=only)
