PROPERTY = "C01"
NEEDS = "a results database left behind by a MAF version before the metricId rename"
BREAKS = "opening it leaves the displays table with its old key column, so the schema is incomplete and display updates fail"
F = "rubin_sim/maf/db/results_db.py"
EDITS = [(F, '''            for table in ["metrics", "summarystats", "plots", "displays"]:
''', '''            for table in ["metrics", "summarystats", "plots"]:
''')]
DEMO = '''
import os, tempfile, sys
from rubin_sim.maf.db import ResultsDb
d = tempfile.mkdtemp()
r = ResultsDb(out_dir=d)
m = r.update_metric("m", "s", "run", "c", "i", "f.npz")
r.update_display(m, {"group": "g", "caption": "x"})
r.downgrade_database()
r = ResultsDb(out_dir=d)
try:
    m2 = r.update_metric("m", "s", "run", "c", "i", "f.npz")
    r.update_display(m2, {"group": "h", "caption": "y"})
    info = r.get_metric_display_info([m2])
except Exception as e:
    print(e)
    sys.exit(1)
sys.exit(0 if m == m2 and len(info) == 1 and info["display_group"][0] == "h" else 1)
'''
