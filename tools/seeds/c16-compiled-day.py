PROPERTY = "C16"
NEEDS = "a simulation archived later on the same day as the last one in the compiled metadata"
BREAKS = "it is not seen, and an older one is reported as the latest"
F = "rubin_sim/sim_archive/prototype.py"
EDITS = [(F, '''        # Make the comparison >=, rather than >, so
        # it won't miss sims in which the compilation does not complete
        # the final date.
        if verify_compilation or (iso_date >= max_compiled_date):
''', '''        if verify_compilation or (iso_date > max_compiled_date):
''')]
DEMO = '''
import os, sys, tempfile, warnings, datetime, yaml
warnings.simplefilter("ignore")
from rubin_sim.sim_archive import prototype
d = tempfile.mkdtemp()
arch = os.path.join(d, "archive"); os.mkdir(arch)
uri = "file://" + arch + "/"
def put(label):
    src = tempfile.mkdtemp()
    open(os.path.join(src, "opsim.db"), "w").write(label)
    yaml.safe_dump({"label": label, "files": {"observations": {"name": "opsim.db"}}, "tags": ["ideal", "nominal"], "telescope": "simonyi",
                    "simulated_dates": {"first": "2030-01-01", "last": "2030-01-05"}, "sim_runner_kwargs": {"a": 1}}, open(os.path.join(src, "sim_metadata.yaml"), "w"))
    return str(prototype.transfer_archive_dir(src, uri))
put("one")
comp = uri + "comp.h5"
prototype.compile_sim_metadata(uri, comp, num_nights=3)
want = put("two")
got = prototype.find_latest_prenight_sim_for_nights("2030-01-02", "2030-01-03", archive_uri=uri, compilation_uri=comp, max_simulation_age=3)
print(want, got["uri"])
sys.exit(0 if got["uri"].rstrip("/") == want.rstrip("/") else 1)
'''
