exec(open("/verif/tools/seeds/c23-mjd0-once.py").read().split("DEMO =")[0])
PROPERTY = "C23"
NEEDS = "ddf_dir on a directory with several simulations"
BREAKS = "the results of a simulation contain metrics under the names of the simulations before it, calculated from its own visits"
F = "rubin_sim/maf/ddf_dir.py"
EDITS = [(F, '''    for filename, name in zip(db_files, run_names):
''', '''    bdict = {}
    for filename, name in zip(db_files, run_names):
'''), (F, '''        bdict = {}
        bdict.update(''', '''        bdict.update(''')]
DEMO = PRE + '''
batches.ddfBatch = lambda run_name, nside, old_coords=False: bundle(run_name)
make("a.db", 0, 3); make("b.db", 1, 4)
cmd("ddf_dir")
r = {x: results(x + "_ddf") for x in "ab"}
print(r)
sys.exit(0 if r == {"a": [("a", 3.0)], "b": [("b", 4.0)]} else 1)
'''
