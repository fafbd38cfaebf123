PROPERTY = "C13"
NEEDS = "a database with several tables one of which has repeated rows"
BREAKS = "rows which are equal to another one are dropped from the archived visits"
F = "rubin_sim/sim_archive/util.py"
EDITS = [(F, '''pd.read_sql_query(f"SELECT * FROM {table}", conn)''', '''pd.read_sql_query(f"SELECT * FROM {table}", conn).drop_duplicates()''')]
DEMO = '''
import os, sys, sqlite3, tempfile, warnings
warnings.simplefilter("ignore")
import pandas as pd
from rubin_sim.sim_archive.util import opsimdb_to_hdf5
d = tempfile.mkdtemp()
p = os.path.join(d, "a.db")
df = pd.DataFrame({"observationStartMJD": [1.5, 1.5, 2.5], "band": ["r", "r", "i"]})
with sqlite3.connect(p) as c:
    df.to_sql("observations", c, index=False)
h = opsimdb_to_hdf5(p, os.path.join(d, "a.h5"))
r = pd.read_hdf(h, "observations")
print(len(r), list(r.index))
sys.exit(0 if len(r) == 3 else 1)
'''
