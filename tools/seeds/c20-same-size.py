PROPERTY = "C20"
NEEDS = "a directory filled again with another version of an input file which has the same name and size"
BREAKS = "the directory keeps the input file of an earlier simulation"
F = "rubin_sim/sim_archive/sim_archive.py"
EDITS = [(F, '''        try:
            shutil.copyfile(fname, data_path.joinpath(files[file_type]["name"]))
        except shutil.SameFileError:
            pass
''', '''        destination = data_path.joinpath(files[file_type]["name"])
        if destination.exists() and destination.stat().st_size == Path(fname).stat().st_size:
            # Already there.
            continue
        shutil.copyfile(fname, destination)
''')]
DEMO = '''
import os, sys, warnings
warnings.simplefilter("ignore")
from rubin_scheduler.scheduler.utils import ObservationArray
from rubin_sim.sim_archive import make_sim_data_dir
d = os.environ["DEMO_DIR"] + "/sim"; os.mkdir(d)
f = os.environ["DEMO_DIR"] + "/run.py"
o = ObservationArray(2); o["mjd"] = [60800.1, 60800.2]; o["band"] = "r"
ok = True
for text in ("nights = 1", "nights = 2"):
    with open(f, "w") as g:
        g.write(text)
    make_sim_data_dir(o, in_files={"script": f}, data_path=d)
    got = open(d + "/run.py").read()
    print(got)
    ok = ok and got == text
sys.exit(0 if ok else 1)
'''
