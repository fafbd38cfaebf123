PROPERTY = "C08"
NEEDS = "a process killed while downloading leaves its temporary file behind"
BREAKS = "later calls take the leftover for a download in progress and return without the run's file"
F = "rubin_sim/maf/run_comparison/archive.py"
EDITS = [(F, '''        if clobber or not os.path.exists(dest_fnames[run_name]):
''', '''        if clobber or not glob.glob(glob.escape(dest_fnames[run_name]) + "*"):
'''), (F, '''import copy
import os
''', '''import copy
import glob
import os
''')]
DEMO = '''
import json, os, signal, subprocess, sys, tempfile, warnings, pathlib
warnings.simplefilter("ignore")
d = tempfile.mkdtemp()
src = os.path.join(d, "src.db")
with open(src, "wb") as f:
    f.write(os.urandom(300000))
fam = os.path.join(d, "runs.json")
with open(fam, "w") as f:
    json.dump({"a": {"run": ["r1"], "brief": ["x"], "filepath": ["r1.db"], "url": [pathlib.Path(src).as_uri()], "version": 1, "description": "d"}}, f)
dest = os.path.join(d, "dest")
os.mkdir(dest)
code = """
import os, sys, urllib.request, urllib.response
from rubin_sim.maf.run_comparison import archive
n = [0]
import urllib.request as u
class Slow:
    def __init__(self, f): self.f = f
    def read(self, *a):
        n[0] += 1
        if n[0] == 3:
            os._exit(9)
        return self.f.read(*a)
    def info(self): return self.f.info()
    def __getattr__(self, k): return getattr(self.f, k)
    def __enter__(self): return self
    def __exit__(self, *a): self.f.close()
opn = u.urlopen
u.urlopen = lambda *a, **k: Slow(opn(*a, **k))
archive.download_runs(["r1"], dest_dir=sys.argv[1], runs_source=sys.argv[2])
"""
rc = subprocess.run([sys.executable, "-c", code, dest, fam]).returncode
print("first attempt", rc, os.listdir(dest))
from rubin_sim.maf.run_comparison import archive
archive.download_runs(["r1"], dest_dir=dest, runs_source=fam)
p = os.path.join(dest, "r1.db")
ok = os.path.exists(p) and open(p, "rb").read() == open(src, "rb").read()
print(ok, os.listdir(dest))
sys.exit(0 if ok else 1)
'''
