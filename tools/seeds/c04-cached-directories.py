PROPERTY = "C04"
NEEDS = "two processes (or handles) that both keep the tracking database open and add the same directory one after the other"
BREAKS = "the directory gets two records, with two run ids"
F = "rubin_sim/maf/db/tracking_db.py"
EDITS = [(F, '''        self.session = self.Session()
''', '''        self.session = self.Session()
        # The directories known to be in the database already.
        self._known_dirs = None
'''), (F, '''        prevrun = self.session.query(RunRow).filter_by(maf_dir=maf_dir).all()
''', '''        if self._known_dirs is None:
            self._known_dirs = set(row[0] for row in self.session.query(RunRow.maf_dir))
        if maf_dir in self._known_dirs:
            prevrun = self.session.query(RunRow).filter_by(maf_dir=maf_dir).all()
        else:
            prevrun = []
            self._known_dirs.add(maf_dir)
''')]
DEMO = '''
import tempfile, sys, os, sqlite3
from rubin_sim.maf.db import TrackingDb
d = tempfile.mkdtemp()
p = os.path.join(d, "t.db")
a, b = TrackingDb(p), TrackingDb(p)
a.add_run(run_name="x", maf_dir=os.path.join(d, "other"))
b.add_run(run_name="y", maf_dir=os.path.join(d, "other2"))
i = a.add_run(run_name="one", maf_dir=os.path.join(d, "run"))
j = b.add_run(run_name="two", maf_dir=os.path.join(d, "run"))
rows = sqlite3.connect(p).execute("select maf_run_id, run_name from runs where maf_dir='run'").fetchall()
print(i, j, rows)
sys.exit(0 if rows == [(i, "two")] and i == j else 1)
'''
