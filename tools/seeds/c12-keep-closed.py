PROPERTY = "C12"
NEEDS = "the server closes a client's connection several times (restarts, time outs)"
BREAKS = "connections which the server closed are never returned to the pool, which runs out"
F = "rubin_sim/sim_archive/vseqmetadata.py"
EDITS = [(F, '''            # Make sure we always return the connection to
            # the pool.
            if connection:
                self.pg_pool.putconn(connection)
''', '''            # Make sure we always return the connection to
            # the pool.
            if connection and not connection.closed:
                self.pg_pool.putconn(connection)
''')]
DEMO = open("/verif/tools/seeds/pgdemo.txt").read() + '''
import psycopg2
for i in range(16):
    c = psycopg2.connect(**db.psycopg2_dsn())
    c.autocommit = True
    c.cursor().execute("SELECT pg_terminate_backend(pid) FROM pg_stat_activity WHERE pid <> pg_backend_pid() AND backend_type='client backend'")
    c.close()
    try:
        vs.query("SELECT 1")
    except Exception as e:
        last = e
try:
    ok = vs.query("SELECT 1")[0][0] == 1
except Exception as e:
    print(type(e), e)
    ok = False
sys.exit(0 if ok else 1)
'''
