PROPERTY = "C02"
NEEDS = "overwriting one plot type of a metric which has plots of other types"
BREAKS = "the acknowledged plots of the other types are gone"
F = "rubin_sim/maf/db/results_db.py"
EDITS = [(F, "plotinfo = self.session.query(PlotRow).filter_by(metric_id=metric_id, plot_type=plot_type).all()", "plotinfo = self.session.query(PlotRow).filter_by(metric_id=metric_id).all()")]
DEMO = '''
import tempfile, sys
from rubin_sim.maf.db import ResultsDb
r = ResultsDb(out_dir=tempfile.mkdtemp())
m = r.update_metric("m", "s", "run", "c", "i", "f.npz")
r.update_plot(m, "SkyMap", "a.pdf")
r.update_plot(m, "Histogram", "b.pdf")
r.update_plot(m, "Histogram", "c.pdf", overwrite=True)
got = sorted((str(p["plot_type"]), str(p["plot_file"])) for p in r.get_plot_files([m]))
print(got)
sys.exit(0 if got == [("Histogram", "c.pdf"), ("SkyMap", "a.pdf")] else 1)
'''
