PROPERTY = "C09"
NEEDS = "the tracking database changes less than a second after the previous change, with the server reading it in between"
BREAKS = "the server keeps showing the runs as they were before the second change"
F = "rubin_sim/maf/web/maf_tracking.py"
EDITS = [(F, '''        if new_stamp != self.stamp:
''', '''        if int(new_stamp) > int(self.stamp):
''')]
DEMO = '''
import os, sys, tempfile
from rubin_sim.maf.db import ResultsDb, TrackingDb
from rubin_sim.maf.web import MafTracking
base = tempfile.mkdtemp()
os.chdir(base)
for d in "ab":
    os.mkdir(d)
    ResultsDb(out_dir=d)
t = TrackingDb(os.path.join(base, "trackingDb_sqlite.db"))
i = t.add_run(maf_dir=os.path.join(base, "a"), run_name="a")
os.utime("trackingDb_sqlite.db", (1000.2, 1000.2))
m = MafTracking(os.path.join(base, "trackingDb_sqlite.db"))
j = t.add_run(maf_dir=os.path.join(base, "b"), run_name="b")
os.utime("trackingDb_sqlite.db", (1000.7, 1000.7))
m._check_db() if hasattr(m, "_check_db") else None
m.sort_runs(m.runs)
names = sorted(m.runs["run_name"])
print(names)
sys.exit(0 if names == ["a", "b"] else 1)
'''
