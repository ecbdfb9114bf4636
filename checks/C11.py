PROP = dict(
    title='Configuration files mean what they say and survive writing and reading',
    statement='Each line with an equal sign that does not start with % sets a parameter, the last setting counts, text after % is ignored, parameters not set keep their default, missing files are an error. '
              'A value is T or F, an integer, a decimal number (with exponent), nothing (None or empty), the table (or complex table) in an existing file, words or numbers separated by any white space as list, '
              'or else text; every text has exactly one reading and numbers are exact. Written configurations read back to the same values (tables via text files); a changed configuration is written before a run '
              'after a backup that never overwrites an earlier one, an unchanged one is left alone. Incomplete grids and tables with too few columns are rejected. The shared defaults never change.',
    quantifier=dict(over=['inputs'], text='all texts of up to four significant characters, random longer values, files and configurations'),
    why_tests_cant='The unit tests read a handful of values; the reading of a value is a total function on texts and must invert writing.',
    anchors=dict(files=['aeolis/inout.py', 'aeolis/model.py'],
                 mechanism=[dict(name='values', where='aeolis/inout.py:parse_value'), dict(name='files', where='aeolis/inout.py:read_configfile'), dict(name='writing', where='aeolis/inout.py:write_configfile'),
                            dict(name='validity', where='aeolis/inout.py:check_configuration'), dict(name='backup', where='aeolis/inout.py:backup')],
                 state=[dict(name='p', meaning='parameters', where='AeoLiS.p'), dict(name='changed', meaning='parameters were changed', where='AeoLiSRunner.changed')],
                 observe_at=['inout.read_configfile', 'inout.write_configfile', 'AeoLiSRunner.write_params'], hook_needed=None))
LEVEL_NOTE = 'TLC checks the grammar on all texts of up to five (six) characters; all of up to four characters are replayed through the real parser, plus random files, configurations and round trips.'
ASSUMPTIONS = ['lists do not contain names of existing files', 'single-element and empty lists, tables with one row and texts that look like other values are not round trips']


def run(ctx):
    ctx.model_check('MC_Config', 'MC_Config_deep.cfg' if ctx.thorough else 'MC_Config.cfg', workers=6)
    scen = ctx.path('scen.ndjson')
    ctx.model_check('MC_Config', 'Gen_Config.cfg', workers=1, env={'SCEN': scen})
    import json
    s = [json.loads(x) for x in open(scen)]
    ctx.judge('Trace_Config', ctx.driver('config', scen=ctx.dump_scen(s)), chunks=4)
