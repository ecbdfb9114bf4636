PROP = dict(
    title='Generated wind series follow a Weibull Markov chain and are usable input',
    statement='For every mean and maximum speed, number of classes, time step, shape and scale the wind generator is built, its transition probabilities form a Markov chain on classes of equal width between zero '
              'and the maximum speed whose stationary distribution is the Weibull distribution of the parameters (with detailed balance); a series has one speed at the start and one per (partial) time step of the '
              'duration, every speed lies in the class chosen by the chain for the random number drawn and between zero and the maximum; the file written has the times, speeds and direction zero, is '
              'accepted as wind input and reproduces the speeds; the wind command does the same and reports minimum, mean and maximum of the series.',
    quantifier=dict(over=['configurations', 'inputs'], text='random parameters (1-30 classes), durations (also fractions of a step), repeated generation; arguments of the command'),
    why_tests_cant='The series is random and no test builds more than one generator; the distribution is a statement about the whole transition matrix.',
    anchors=dict(files=['aeolis/model.py', 'aeolis/console.py', 'aeolis/wind.py'],
                 mechanism=[dict(name='chain', where='aeolis/model.py:WindGenerator.__init__'), dict(name='draw', where='aeolis/model.py:WindGenerator.update'),
                            dict(name='write', where='aeolis/model.py:WindGenerator.write_time_series'), dict(name='command', where='aeolis/console.py:wind')],
                 state=[dict(name='MTMcum, state, states, wind_speeds, t', meaning='the chain and the series', where='WindGenerator')],
                 observe_at=['WindGenerator.generate', 'WindGenerator.get_time_series', 'console.wind', 'AeoLiS.update'], hook_needed=None))
LEVEL_NOTE = ('TLC explores all chains over a lattice of cumulative rows and random numbers (each class drawn with exactly its probability, speeds inside the class); the same operators judge the transition '
              'matrix, every draw of real series, the files and their use by a real model.')
ASSUMPTIONS = ['the recorded random numbers are those drawn', 'the iteration for the chain stops at 1e-10']


def run(ctx):
    ctx.model_check('MC_WindGen', 'MC_WindGen_deep.cfg' if ctx.thorough else 'MC_WindGen.cfg', workers=6)
    ctx.judge('Trace_WindGen', ctx.driver('windgen', n=8), chunks=4)
