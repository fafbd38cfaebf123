exec(open("/verif/tools/seeds/c23-mjd0-once.py").read().split("DEMO =")[0])
PROPERTY = "C23"
NEEDS = "glance_dir killed while it runs the metrics of a simulation, and run again"
BREAKS = "the results of that simulation stay incomplete, and it is never tracked"
F = "rubin_sim/maf/glance_dir.py"
EDITS = [(F, '''        if os.path.isdir(name + "_glance"):
            shutil.rmtree(name + "_glance")
''', '''        db_out = os.path.join(name + "_glance", "resultsDb_sqlite.db")
        if os.path.isfile(db_out) and os.path.getmtime(db_out) > os.path.getmtime(filename):
            # Done already.
            continue
        if os.path.isdir(name + "_glance"):
            shutil.rmtree(name + "_glance")
''')]
DEMO = PRE + '''
make("a.db", 0)
os.utime("a.db", (1e9, 1e9))
batches.glanceBatch = lambda colmap, name: bundle(name)
from rubin_sim.maf.metric_bundles import MetricBundleGroup
real = MetricBundleGroup.run_all
class Killed(BaseException):
    pass
def killed(self, *a, **k):
    raise Killed
MetricBundleGroup.run_all = killed
try:
    cmd("glance_dir")
except Killed:
    pass
MetricBundleGroup.run_all = real
cmd("glance_dir")
r = results("a_glance")
print(r, os.path.exists("trackingDb_sqlite.db"))
sys.exit(0 if r == [("a", 5.0)] and os.path.exists("trackingDb_sqlite.db") else 1)
'''
