PROPERTY = "C06"
NEEDS = "slice caching, and two slice points with equally many visits and the same first and last visit but different visits between"
BREAKS = "the second slice point gets the metric values of the first"
F = "rubin_sim/maf/metric_bundles/metric_bundle_group.py"
EDITS = [(F, 'cache_key = frozenset(slice_i["idxs"])', 'cache_key = (len(slice_i["idxs"]), min(slice_i["idxs"]), max(slice_i["idxs"]))')]
DEMO = '''
import tempfile, sys
import numpy as np
import rubin_sim.maf as maf

class Two(maf.BaseSlicer):
    def __init__(self, use_cache):
        super().__init__(badval=-666)
        self.use_cache = use_cache
        self.cache_size = 10 if use_cache else 0
        self.nslice = 2
        self.shape = 2
        self.slice_points["sid"] = np.arange(2)
        self.columns_needed = []
    def setup_slicer(self, sim_data, maps=None):
        @__import__("functools").wraps(self._slice_sim_data)
        def f(i):
            return {"idxs": [[0, 1, 3], [0, 2, 3]][i], "slice_point": {"sid": i}}
        self._slice_sim_data = f

data = np.zeros(4, dtype=[("x", float)])
data["x"] = [1, 2, 30, 4]
out = []
for cache in (False, True):
    b = maf.MetricBundle(maf.MeanMetric(col="x"), Two(cache), "", run_name="run")
    g = maf.MetricBundleGroup({"a": b}, None, out_dir=tempfile.mkdtemp(), save_early=False)
    g.run_current("", sim_data=data)
    out.append(b.metric_values.filled(-1).tolist())
print(out)
sys.exit(0 if out[0] == out[1] else 1)
'''
