PROPERTY = "C19"
NEEDS = "an SED read for the first time from its file is changed in place, then read again in the same session"
BREAKS = "the change of one SED shows up in the next one read"
F = "rubin_sim/phot_utils/sed.py"
EDITS = [(F, '''                _global_misc_sed_cache[filename] = (
                    numpy.copy(sourcewavelen),
                    numpy.copy(sourceflambda),
                )
''', '''                _global_misc_sed_cache[filename] = (sourcewavelen, sourceflambda)
''')]
DEMO = '''
import gzip, os, sys
from rubin_sim.phot_utils import Sed
f = os.environ["DEMO_DIR"] + "/s.dat"
with gzip.open(f + ".gz", "wt") as g:
    g.write("300 1.0\\n400 2.0\\n500 3.0\\n")
a = Sed(); a.read_sed_flambda(f)
a.flambda *= 2.0
b = Sed(); b.read_sed_flambda(f)
print(b.flambda)
sys.exit(0 if b.flambda.tolist() == [1.0, 2.0, 3.0] else 1)
'''
