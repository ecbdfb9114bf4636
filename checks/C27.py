PROP = dict(
    title='Commands do what the library does and touch only their own files',
    statement='For every sequence of aeolis commands and of edits by the user: "aeolis run", from any folder and with a relative or absolute path, leaves exactly the output that AeoLiSRunner.run gives for the present '
              'configuration (with the given callback and restart file), whatever was there before, writes a log file and returns to its folder; without configuration file it changes nothing, without callback file it keeps '
              'the output. "aeolis wind" writes a wind table with the requested time step, duration and maximum. "aeolis examples" copies the packaged examples exactly and never overwrites examples that exist. '
              'Deprecated, unknown and incomplete commands fail and change nothing. No command changes any other file; success and failure are reported by the exit status.',
    quantifier=dict(over=['histories', 'fault_sequences', 'programs'], text='sequences of commands and user edits enumerated by TLC, on real folders'),
    why_tests_cant='Tests invoke each command once in a clean folder.',
    anchors=dict(files=['aeolis/console.py', 'aeolis/model.py'],
                 mechanism=[dict(name='commands', where='aeolis/console.py:run'), dict(name='examples', where='aeolis/console.py:examples'), dict(name='deprecated', where='aeolis/console.py:start_aeolis_app')],
                 state=[dict(name='files', meaning='the folders of the user', where='file system')],
                 observe_at=['all files after every command', 'exit status'], hook_needed=None))
LEVEL_NOTE = ('TLC explores all sequences of 3 (4) commands and edits over the files; sequences of 7 are replayed through the entry points of the command line in scratch folders and every observed change of the files '
              'has to be a transition of the specification.')
ASSUMPTIONS = ['entry points are called in process with sys.argv', 'reference outputs come from AeoLiSRunner.run (its meaning: C25)', 'random wind series are judged by their form (C23 judges their content)']


def run(ctx):
    ctx.model_check('MC_Console', 'MC_Console_deep.cfg' if ctx.thorough else 'MC_Console.cfg', workers=6)
    s = ctx.generate('MC_Console', 'Gen_Console.cfg', 200 if ctx.thorough else 48, 9)
    ctx.judge('Trace_Console', ctx.driver('shell', scen=ctx.dump_scen(s), n=8), chunks=4)
