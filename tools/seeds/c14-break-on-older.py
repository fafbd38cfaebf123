PROPERTY = "C14"
NEEDS = "an index which is not in the order in which its simulations were created"
BREAKS = "the selection stops at the first simulation older than the best one so far"
F = "rubin_sim/sim_archive/prenightindex.py"
EDITS = [(F, '''            if sim["creation_time"] < best_sim["creation_time"]:
                continue
''', '''            if sim["creation_time"] < best_sim["creation_time"]:
                break
''')]
DEMO = '''
import sys, warnings
warnings.simplefilter("ignore")
import pandas as pd
from rubin_sim.sim_archive.prenightindex import select_latest_prenight_sim
now = pd.Timestamp.now(tz="UTC")
h = lambda n: now - pd.Timedelta(hours=n)
df = pd.DataFrame({"visitseq_uuid": list("abc"), "visitseq_url": list("abc"), "creation_time": [h(10), h(20), h(5)],
                   "tags": [["ideal", "nominal"]] * 3}).set_index("visitseq_uuid")
r = select_latest_prenight_sim(df)
print(r["visitseq_uuid"])
sys.exit(0 if r["visitseq_uuid"] == "c" else 1)
'''
