PROPERTY = "C05"
NEEDS = "a save that fails or is killed while the data file is being written"
BREAKS = "the results database names a data file that does not exist"
F = "rubin_sim/maf/metric_bundles/metric_bundle.py"
EDITS = [(F, '''            outfile = self.file_root + ".npz"
        self.slicer.write_data(
''', '''            outfile = self.file_root + ".npz"
        if results_db is not None:
            self.write_db(results_db=results_db, outfile_suffix=outfile_suffix)
        self.slicer.write_data(
'''), (F, '''            summary_values=self.summary_values,
        )
        if results_db is not None:
            self.write_db(results_db=results_db, outfile_suffix=outfile_suffix)

''', '''            summary_values=self.summary_values,
        )

''')]
DEMO = '''
import tempfile, sys, os, sqlite3
import numpy as np
import rubin_sim.maf as maf
d = tempfile.mkdtemp()
r = maf.ResultsDb(out_dir=d)
b = maf.MetricBundle(maf.MeanMetric(col="x"), maf.UniSlicer(), "", run_name="run")
b.metric_values = np.ma.MaskedArray([1.0], mask=[False])
real = np.savez
def full(*a, **k):
    raise OSError(28, "No space left on device")
np.savez = full
try:
    b.write(out_dir=d, results_db=r)
except OSError as e:
    print("raised", e)
np.savez = real
files = [x[0] for x in sqlite3.connect(os.path.join(d, "resultsDb_sqlite.db")).execute("select metric_datafile from metrics")]
missing = [f for f in files if not os.path.isfile(os.path.join(d, f))]
print(files, missing)
sys.exit(1 if missing else 0)
'''
