PROPERTY = "C03"
NEEDS = "the database becomes locked by a peer, or the process is killed, between the two commits of a display overwrite"
BREAKS = "a display update that raised has removed the previous display record"
F = "rubin_sim/maf/db/results_db.py"
EDITS = [(F, '''                for d in displayinfo:
                    self.session.delete(d)
''', '''                for d in displayinfo:
                    self.session.delete(d)
                # Make sure the old rows are gone before their replacement.
                self.session.commit()
''')]
DEMO = '''
import tempfile, sys, os, sqlite3
from sqlalchemy import event
from sqlalchemy.engine import Engine
from rubin_sim.maf.db import ResultsDb
d = tempfile.mkdtemp()
r = ResultsDb(out_dir=d, timeout=0.2)
m = r.update_metric("m", "s", "run", "c", "i", "f.npz")
r.update_display(m, {"group": "old", "caption": "x"})
path = os.path.join(d, "resultsDb_sqlite.db")
peer = sqlite3.connect(path, isolation_level=None)
locked = []

@event.listens_for(Engine, "before_cursor_execute")
def before(conn, cursor, statement, parameters, context, executemany):
    # a peer takes the write lock whenever it is free just before the insert
    if statement.strip().upper().startswith("INSERT INTO DISPLAYS") and not locked:
        try:
            peer.execute("pragma busy_timeout=0")
            peer.execute("begin immediate")
            locked.append(1)
        except sqlite3.OperationalError:
            pass

raised = False
try:
    r.update_display(m, {"group": "new", "caption": "y"})
except Exception as e:
    print("raised", e)
    raised = True
if locked:
    peer.execute("rollback")
got = [x[0] for x in sqlite3.connect(path).execute("select display_group from displays")]
print(raised, got)
sys.exit(0 if got == (["old"] if raised else ["new"]) else 1)
'''
