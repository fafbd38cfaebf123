PROPERTY = "C23"
NEEDS = "scimaf_dir on a directory with several simulations which start on different days"
BREAKS = "the metrics of the later simulations use the start of the first one"
F = "rubin_sim/maf/scimaf_dir.py"
EDITS = [(F, '''    for filename, name in zip(db_files, run_names):
        out_dir = name + "_sci"
''', '''    mjd0 = None
    for filename, name in zip(db_files, run_names):
        out_dir = name + "_sci"
'''), (F, '''            con = sqlite3.connect(filename)
            mjd0_df = pd.read_sql("select min(observationStartMJD) from observations;", con)
            con.close()
            mjd0 = mjd0_df.values.min()
''', '''            if mjd0 is None:
                con = sqlite3.connect(filename)
                mjd0_df = pd.read_sql("select min(observationStartMJD) from observations;", con)
                con.close()
                mjd0 = mjd0_df.values.min()
''')]
PRE = '''
import os, sys, sqlite3, tempfile, importlib
import rubin_sim.maf as maf
from rubin_sim.maf import batches
d = tempfile.mkdtemp(); os.chdir(d)
def make(n, night, k=5):
    con = sqlite3.connect(n)
    con.execute("create table observations (observationId int, observationStartMJD float, airmass float, night int)")
    con.executemany("insert into observations values (?,?,?,?)", [(i, 60000.5 + night + i * 0.01, 1.0 + i, 1) for i in range(k)])
    con.commit(); con.close()
seen = {}
def bundle(name, **kw):
    from rubin_sim.maf import metric_bundles, metrics, slicers
    seen[name] = kw
    b = metric_bundles.MetricBundle(metrics.CountMetric("observationId"), slicers.UniSlicer(), "", run_name=name)
    return {name: b}
def cmd(n, *a):
    m = importlib.import_module("rubin_sim.maf." + n)
    sys.argv = [n, *a]
    getattr(m, n)()
def results(out):
    con = sqlite3.connect(out + "/resultsDb_sqlite.db")
    r = con.execute("select m.run_name, s.summary_value from metrics m left join summarystats s on s.metric_id = m.metric_id").fetchall()
    con.close()
    return r
'''
DEMO = PRE + '''
batches.science_radar_batch = lambda runName, mjd0: bundle(runName, mjd0=mjd0)
make("a.db", 0); make("b.db", 7)
cmd("scimaf_dir")
print(seen)
sys.exit(0 if float(seen["a"]["mjd0"]) == 60000.5 and float(seen["b"]["mjd0"]) == 60007.5 else 1)
'''
