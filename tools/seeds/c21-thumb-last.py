PROPERTY = "C21"
NEEDS = "plotting is killed, or the disk fills up, between the record of a plot and its thumbnail"
BREAKS = "a recorded plot has no thumbnail"
F = "rubin_sim/maf/plots/plot_handler.py"
EDITS = [(F, '''        # Generate a png thumbnail.
        if self.thumbnail:
            thumb_file = "thumb." + outfile_root + "_" + plot_type + ".png"
            self._write_fig(fig, thumb_file, dpi=72, bbox_inches="tight", format="png")
        # Save information about the file to results_db.
''', '''        # Save information about the file to results_db.
'''), (F, '''            self.results_db.update_plot(metric_id=metric_id, plot_type=plot_type, plot_file=plot_file)

    def _write_fig''', '''            self.results_db.update_plot(metric_id=metric_id, plot_type=plot_type, plot_file=plot_file)
        # Generate a png thumbnail.
        if self.thumbnail:
            thumb_file = "thumb." + outfile_root + "_" + plot_type + ".png"
            self._write_fig(fig, thumb_file, dpi=72, bbox_inches="tight", format="png")

    def _write_fig''')]
DEMO = '''
import os, sys, sqlite3, warnings
warnings.simplefilter("ignore")
import numpy as np, matplotlib
matplotlib.use("Agg")
import rubin_sim.maf as maf
d = os.environ["DEMO_DIR"] + "/out"
db = maf.ResultsDb(out_dir=d)
b = maf.MetricBundle(maf.MeanMetric(col="airmass"), maf.UserPointsSlicer(np.arange(5.0), np.arange(5.0), use_camera=False), "", run_name="run")
b.metric_values = np.ma.MaskedArray(np.arange(5.0), mask=np.zeros(5, bool))
b.plot_funcs = [maf.BaseHistogram()]
real = matplotlib.figure.Figure.savefig
def savefig(self, name, *a, **k):
    if os.path.basename(str(name)).startswith("thumb."):
        raise OSError(28, "No space left on device")
    return real(self, name, *a, **k)
matplotlib.figure.Figure.savefig = savefig
try:
    b.plot(plot_handler=maf.PlotHandler(out_dir=d, results_db=db, fig_format="png"), savefig=True)
except OSError as e:
    print("raised", e)
plots = [x[0] for x in sqlite3.connect(d + "/resultsDb_sqlite.db").execute("select plot_file from plots")]
missing = [p for p in plots if not os.path.exists(os.path.join(d, "thumb." + p))]
print(plots, missing)
sys.exit(1 if missing else 0)
'''
