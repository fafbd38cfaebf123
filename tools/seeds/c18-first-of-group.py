PROPERTY = "C18"
NEEDS = "three bundles, of which the second and third need the same stacker set up differently and the first neither"
BREAKS = "bundles with conflicting stackers are run together"
F = "rubin_sim/maf/metric_bundles/mo_metric_bundle.py"
EDITS = [(F, '''                    for comparison_key in compatible_list:
''', '''                    for comparison_key in compatible_list[:1]:
''')]
DEMO = '''
import os, sys, warnings
import numpy as np
warnings.simplefilter("ignore")
from rubin_sim.maf.slicers import MoObjSlicer
from rubin_sim.maf.metrics import BaseMoMetric
from rubin_sim.maf.metric_bundles import MoMetricBundle, MoMetricBundleGroup
from rubin_sim.maf.stackers import EclStacker, MoMagStacker, BaseMoStacker
d = os.environ["DEMO_DIR"]
with open(d + "/pop.txt", "w") as f:
    f.write("obj_id q e inc Omega argPeri tPeri epoch H g\\n1 1.5 0.1 10 20 30 60010 60676.0 20.0 0.15\\n2 1.7 0.2 11 21 31 60020 60676.0 20.0 0.15\\n")
dt = [("obj_id", int), ("observationStartMJD", float), ("night", int), ("ra", float), ("dec", float), ("dradt", float), ("ddecdt", float), ("magV", float), ("dmag_color", float),
      ("dmag_trail", float), ("dmag_detect", float), ("fiveSigmaDepth", float), ("band", "U1")]
obs = np.array([(o, 60980.1 + n, n + 1, 100.0 + o + n, -10.0 + n, 0.5, 0.5, 20.0, 0.1, 0.1, 0.1, 24.5, "r") for n in range(3) for o in (1, 2)], dtype=dt)
np.savez(d + "/obs.npz", object_observations=obs)

class Lat(BaseMoMetric):
    def __init__(self, name):
        super().__init__(metric_name=name)
    def run(self, sso_obs, orb, hval):
        return float(np.max(np.abs(sso_obs["ecLat"]))) if "ecLat" in sso_obs.dtype.names else -1.0

def bundles():
    s = MoObjSlicer(h_range=None)
    s.setup_slicer(orbit_file=d + "/pop.txt", obs_file=d + "/obs.npz")
    out = {}
    for name, st in (("A", []), ("B", [EclStacker(in_deg=True)]), ("C", [EclStacker(in_deg=False)])):
        out[name] = MoMetricBundle(Lat(name), s, stacker_list=[MoMagStacker(sigma=1e-5)] + st, run_name="sim", info_label=name)
    return out

def values(keys):
    b = {k: v for k, v in bundles().items() if k in keys}
    MoMetricBundleGroup(b, out_dir=d, results_db=None, verbose=False).run_all()
    return {k: np.asarray(v.metric_values).ravel().tolist() for k, v in b.items()}

together = values("ABC")
ok = True
for k in "BC":
    a = values(k)[k]
    print(k, a, together[k])
    ok = ok and np.allclose(a, together[k])
sys.exit(0 if ok else 1)
'''
