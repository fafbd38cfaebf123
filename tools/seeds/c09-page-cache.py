PROPERTY = "C09"
NEEDS = "a run is deleted and another one is added (it gets the freed id) while the server has the deleted run's page cached"
BREAKS = "the pages of the new run show the results of the deleted one"
F = "rubin_sim/maf/web/maf_tracking.py"
EDITS = [(F, '''        self.runs_page = {}
''', '''        # Pages of runs which are still tracked stay valid.
        pages = getattr(self, "runs_page", {})
        self.runs_page = {i: pages[i] for i in self.runs["maf_run_id"] if i in pages}
''')]
DEMO = '''
import os, sys, tempfile
from rubin_sim.maf.db import ResultsDb, TrackingDb
from rubin_sim.maf.web import MafTracking
base = tempfile.mkdtemp()
os.chdir(base)
for d in "ab":
    os.mkdir(d)
    r = ResultsDb(out_dir=d)
    k = r.update_metric("metric_" + d, "s", d, "c", "i", "f.npz")
    r.update_display(k, {"group": "g", "subgroup": "s"})
t = TrackingDb(os.path.join(base, "trackingDb_sqlite.db"))
i = t.add_run(maf_dir=os.path.join(base, "a"), run_name="a")
os.utime("trackingDb_sqlite.db", (1000, 1000))
m = MafTracking(os.path.join(base, "trackingDb_sqlite.db"))
m.get_run(int(i))
t.delRun(i)
j = t.add_run(maf_dir=os.path.join(base, "b"), run_name="b")
os.utime("trackingDb_sqlite.db", (2000, 2000))
names = list(m.get_run(int(j)).metrics["metric_name"])
print(i, j, names)
sys.exit(0 if i == j and names == ["metric_b"] else 1)
'''
