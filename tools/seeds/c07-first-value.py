PROPERTY = "C07"
NEEDS = "a statistic recorded again (the batch was rerun), or a run gathered from two directories"
BREAKS = "the gathered value is the outdated one"
F = "rubin_sim/maf/run_comparison/gather_summaries.py"
EDITS = [(F, '''    g = all_summaries.groupby(["run_name", "summary_names"]).agg({"summary_value": "last"})
''', '''    all_summaries = all_summaries.drop_duplicates(["run_name", "summary_names"])
    g = all_summaries.groupby(["run_name", "summary_names"]).agg({"summary_value": "last"})
''')]
DEMO = '''
import sys, tempfile
from rubin_sim.maf.db import ResultsDb
from rubin_sim.maf.run_comparison import combine_result_dbs
d = tempfile.mkdtemp()
r = ResultsDb(out_dir=d)
m = r.update_metric("m", "s", "run", "c", "i", "f.npz")
r.update_summary_stat(m, "Mean", 1.0)
r.update_summary_stat(m, "Mean", 2.0)
v = float(combine_result_dbs([d]).loc["run", "Mean m i s"])
print(v)
sys.exit(0 if v == 2.0 else 1)
'''
