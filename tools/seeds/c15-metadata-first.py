PROPERTY = "C15"
NEEDS = "a process killed, or a disk error, while an entry is being transferred"
BREAKS = "an entry whose metadata file is there although its files are not"
F = "rubin_sim/sim_archive/prototype.py"
EDITS = [(F, '''    sim_metadata["files"]["metadata"] = {"name": "sim_metadata.yaml"}

    for file_info in sim_metadata["files"].values():
''', '''    transfers = {"metadata": {"name": "sim_metadata.yaml"}} | sim_metadata["files"]

    for file_info in transfers.values():
''')]
DEMO = '''
import os, sys, tempfile, warnings, datetime, yaml
warnings.simplefilter("ignore")
from rubin_sim.sim_archive import prototype
d = tempfile.mkdtemp()
src = os.path.join(d, "src"); os.mkdir(src)
arch = os.path.join(d, "archive"); os.mkdir(arch)
for n in ("opsim.db", "rewards.h5"):
    open(os.path.join(src, n), "w").write(n)
yaml.safe_dump({"files": {"observations": {"name": "opsim.db"}, "rewards": {"name": "rewards.h5"}}}, open(os.path.join(src, "sim_metadata.yaml"), "w"))
n = [0]
from lsst.resources.file import FileResourcePath
tf, wr = FileResourcePath.transfer_from, FileResourcePath.write
def step(f):
    def g(self, *a, **k):
        n[0] += 1
        if n[0] == 3:
            raise OSError(28, "No space left on device")
        return f(self, *a, **k)
    return g
FileResourcePath.transfer_from, FileResourcePath.write = step(tf), step(wr)
try:
    prototype.transfer_archive_dir(src, "file://" + arch + "/")
    print("no failure?"); sys.exit(2)
except OSError as e:
    print(e)
ok = True
for base, dirs, files in os.walk(arch):
    print(base, files)
    if "sim_metadata.yaml" in files and len(files) < 3:
        ok = False
sys.exit(0 if ok else 1)
'''
