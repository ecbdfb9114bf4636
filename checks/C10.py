PROP = dict(
    title='The model interface reads and writes the state, respecting protection',
    statement='get_var and set_var address state variables first and parameters second; unknown names give nothing and change nothing; set_var_index and get_var_name address the variables by '
              'alphabetical position, positions beyond the end (-1) change nothing. Concentrations Ct and Cu are returned divided by the acceleration factor. Any assignment (set_var, item, update with '
              'several variables) to a variable made immutable is ignored, to any other one takes effect, touches no other variable, and new variables are mutable. Counts, names, ranks, shapes and types '
              'describe the variables; during a run every variable keeps the dimensions declared for it (or is a single number), and start, current and end times are those of the model. Methods not implemented say so.',
    quantifier=dict(over=['histories', 'configurations'], text='any sequence of assignments, protections and releases by name, item, index or update; nine process configurations with time steps'),
    why_tests_cant='The unit tests set and get one variable; protection concerns the order of operations over several variables.',
    anchors=dict(files=['aeolis/model.py', 'aeolis/constants.py'],
                 mechanism=[dict(name='state', where='aeolis/model.py:ModelState'), dict(name='BMI', where='aeolis/model.py:AeoLiS.set_var'), dict(name='dimensions', where='aeolis/model.py:AeoLiS.dimensions')],
                 state=[dict(name='ismutable', meaning='names that may be assigned', where='ModelState.ismutable'), dict(name='s, p', meaning='variables and parameters', where='AeoLiS.s')],
                 observe_at=['AeoLiS.get_var', 'AeoLiS.set_var', 'ModelState.update'], hook_needed=None))
LEVEL_NOTE = 'TLC explores all sequences of up to three (four) operations and checks protection, last write and frame; its longer behaviours are replayed on real models and compared after every operation.'
ASSUMPTIONS = ['changes made in place inside an array (s["zb"][...] = v) are not assignments', 'get_var scales concentrations, set_var does not']


def run(ctx):
    ctx.model_check('MC_Store', 'MC_Store_deep.cfg' if ctx.thorough else 'MC_Store.cfg', workers=4)
    s = ctx.generate('MC_Store', 'Gen_Store.cfg', 400 if ctx.thorough else 60, 15)
    ctx.judge('Trace_Store', ctx.driver('store', 'store', scen=ctx.dump_scen(s)) + ctx.driver('store', 'shape', 'err', n=3 if ctx.thorough else 1), chunks=2)
