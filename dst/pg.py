"""The PostgreSQL seam.

Every worker has a server of its own (real PostgreSQL 16, started with a
preloaded library that takes its wall clock and UUIDs from the simulator).
Inside simulated processes psycopg2.connect returns connections whose every
statement and commit is a yield and fault point."""

import glob
import mmap
import os
import pwd
import random
import shutil
import signal
import struct
import subprocess
import time

import psycopg2
import psycopg2.extensions as ext
import psycopg2.pool

from . import core

BIN = "/usr/lib/postgresql/16/bin"
SCHEMA = "test_vs"
DB = "vs"
CONF = """
listen_addresses = ''
fsync = off
full_page_writes = off
autovacuum = off
jit = off
shared_buffers = 16MB
max_connections = 60
max_wal_senders = 0
wal_level = minimal
max_parallel_workers_per_gather = 0
max_parallel_workers = 0
logging_collector = off
log_min_messages = panic
log_min_error_statement = panic
deadlock_timeout = 20ms
timezone = 'UTC'
log_timezone = 'UTC'
bgwriter_lru_maxpages = 0
checkpoint_timeout = 1d
max_wal_size = 512MB
min_wal_size = 32MB
restart_after_crash = on
"""
_real_connect = psycopg2.connect
SERVER = None  # the server of this worker
CREATE_ERROR = None


def _as_pg(cmd, env=None, **k):
    e = {x: y for x, y in os.environ.items() if x not in ("LD_PRELOAD", "PGTZ", "TZ")}
    e.update(LC_ALL="C.UTF-8", **(env or {}))
    return subprocess.Popen(["setpriv", "--reuid=postgres", "--regid=postgres", "--init-groups", *cmd], env=e, cwd="/",
                            stdin=subprocess.DEVNULL, **k)


def _chown(path):
    p = pwd.getpwnam("postgres")
    for d, dn, fn in os.walk(path):
        os.chown(d, p.pw_uid, p.pw_gid)
        for f in fn:
            os.lchown(os.path.join(d, f), p.pw_uid, p.pw_gid)


class Server:
    def __init__(self, base):
        self.base = base
        self.data = os.path.join(base, "data")
        self.statef = os.path.join(base, "simstate")
        self.mon = None

    def start(self):
        with open(self.statef, "wb") as f:
            f.write(b"\0" * 4096)
        os.chmod(self.statef, 0o666)
        f = open(self.statef, "r+b")
        self.mm = mmap.mmap(f.fileno(), 4096)
        f.close()
        lib = os.path.join(self.base, "pgclock.so")
        shutil.copy(os.path.join(os.path.dirname(os.environ["DST_SHIM"]), "libpgclock.so"), lib)
        os.chmod(lib, 0o755)
        _chown(self.base)
        log = open(os.path.join(self.base, "log"), "ab")
        self.proc = _as_pg([BIN + "/postgres", "-D", self.data, "-k", self.base], env={"LD_PRELOAD": lib, "SIMPG_STATE": self.statef},
                           stdout=log, stderr=log)
        log.close()
        self.wait_up()

    def dsn(self, db=DB):
        return {"host": self.base, "user": "root", "database": db}

    def raw(self, db=DB, **k):
        c = _real_connect(**self.dsn(db), **k)
        c.autocommit = True
        return c

    def wait_up(self, db="postgres", seconds=60):
        end = core.REAL_MONO() + seconds
        while True:
            try:
                return self.raw(db).close()
            except psycopg2.OperationalError:
                if core.REAL_MONO() > end:
                    raise core.HarnessError("the database server does not come up")
                core._real_sleep(0.02)

    def stop(self):
        if self.mon is not None:
            try:
                self.mon.close()
            except Exception:
                pass
            self.mon = None
        self.proc.send_signal(signal.SIGINT)
        self.proc.wait(60)

    # -- control -----------------------------------------------------------
    def clock(self, t):
        struct.pack_into("<d", self.mm, 0, float(t))

    def seed(self, s):
        struct.pack_into("<QQ", self.mm, 8, (s & 0xFFFFFFFFFFFFFFF) | 1, 0)

    def q(self, sql, args=None):
        for _ in range(3):
            try:
                if self.mon is None or self.mon.closed:
                    self.mon = self.raw(application_name="monitor")
                with self.mon.cursor() as c:
                    c.execute(sql, args)
                    return c.fetchall() if c.description else None
            except psycopg2.Error as e:
                if self.mon is not None and not self.mon.closed and e.pgcode and not e.pgcode.startswith("57"):
                    raise
                self.mon = None
                self.wait_up()
        raise core.HarnessError("the database server does not answer")

    def sessions(self):
        return self.q("select pid, application_name, state from pg_stat_activity where backend_type='client backend' and application_name like 'sim%%'")

    def wait_gone(self, app, seconds=30):
        end = core.REAL_MONO() + seconds
        while self.q("select count(*) from pg_stat_activity where application_name=%s", (app,))[0][0]:
            if core.REAL_MONO() > end:
                raise core.HarnessError(f"sessions of {app} do not end")
            core._real_sleep(0.002)

    def reset(self, seed):
        """An empty archive; a fixed sequence of generated ids."""
        for pid, *_ in self.sessions():
            self.q("select pg_terminate_backend(%s)", (pid,))
        end = core.REAL_MONO() + 30
        while self.sessions():
            if core.REAL_MONO() > end:
                raise core.HarnessError("sessions do not end")
            core._real_sleep(0.002)
        t = [r[0] for r in self.q("select tablename from pg_tables where schemaname=%s order by 1", (SCHEMA,))]
        if t:
            self.q("truncate " + ", ".join(f"{SCHEMA}.{x}" for x in t))
        self.seed(seed)

    def blocked(self, pid):
        return self.q("select count(*) from pg_stat_activity where application_name=%s and cardinality(pg_blocking_pids(pid))>0", (f"sim{pid}",))[0][0] > 0


# -- inside a simulated process -------------------------------------------------
def terminate(con):
    """The server ends this session (network gone, administrator, failover)."""
    pid = con.info.backend_pid
    m = _real_connect(**SERVER.dsn("postgres"), application_name="mon2")
    m.autocommit = True
    with m.cursor() as c:
        c.execute("select pg_terminate_backend(%s)", (pid,))
        end = core.REAL_MONO() + 30
        while True:
            c.execute("select count(*) from pg_stat_activity where pid=%s", (pid,))
            if c.fetchone()[0] == 0 or core.REAL_MONO() > end:
                break
    m.close()
    while _state(pid) not in ("Z", None) and core.REAL_MONO() < end:
        core._real_sleep(0.001)


def lost(e):
    """Was the exception caused by the server or the connection rather than by
    the arguments of a call?"""
    todo, seen = [e], set()
    while todo and len(seen) < 30:
        e = todo.pop()
        if e is None or id(e) in seen:
            continue
        seen.add(id(e))
        if isinstance(e, psycopg2.pool.PoolError) or type(e).__name__ == "PendingRollbackError":
            return True
        if isinstance(e, psycopg2.Error):
            c = e.pgcode
            if c is None:
                if isinstance(e, (psycopg2.OperationalError, psycopg2.InterfaceError)) or type(e) is psycopg2.DatabaseError:
                    return True
            elif c[:2] in ("08", "25", "53", "57", "58", "XX") or c == "40P01":
                return True
        todo += [getattr(e, "orig", None), e.__cause__, e.__context__]
    return False


def server_crash(con=None):
    """The server crashes (all sessions lost) and recovers from its log."""
    m = _real_connect(**SERVER.dsn("postgres"), application_name="mon2")
    pid = m.info.backend_pid
    os.kill(pid, signal.SIGKILL)
    end = core.REAL_MONO() + 60
    # until the postmaster has noticed, connections may still be accepted
    while True:
        try:
            m.autocommit = True
            m.cursor().execute("select 1")
        except psycopg2.Error:
            break
        if core.REAL_MONO() > end:
            raise core.HarnessError("the database server does not crash")
    if con is not None:
        # our own session dies with the others
        while os.path.exists(f"/proc/{con.info.backend_pid}") and _state(con.info.backend_pid) not in ("Z", None):
            core._real_sleep(0.001)
            if core.REAL_MONO() > end:
                raise core.HarnessError("a session survives a server crash")
    SERVER.wait_up()


def _state(pid):
    try:
        with open(f"/proc/{pid}/stat") as f:
            return f.read().rsplit(")", 1)[1].split()[0]
    except (FileNotFoundError, ProcessLookupError):
        return None


def _word(sql, con):
    if not isinstance(sql, (str, bytes)):
        sql = sql.as_string(con)
    if isinstance(sql, bytes):
        sql = sql.decode("utf-8", "replace")
    w = sql.split(None, 3)
    return " ".join(w[:3]).upper()[:40]


def _enact(f, con, cur=None):
    k = f["kind"]
    if k == "pg_lost":
        terminate(con)
    elif k == "pg_down":
        server_crash(con)
    elif k == "pg_err":
        # a server-side error of the statement, e.g. out of disk space
        if cur is None:
            terminate(con)
        else:
            ext.cursor.execute(cur, "DO $$ BEGIN RAISE EXCEPTION USING ERRCODE='53100', MESSAGE='could not extend file: No space left on device'; END $$")


class SimCursor(ext.cursor):
    def execute(self, q, args=None):
        s = core.SIM
        if s is None or not s.parking:
            return super().execute(q, args)
        w = _word(q, self.connection)
        com = w.startswith("COMMIT")
        f = s.seam("commit" if com else "sql", w)
        if f is not None:
            _enact(f, self.connection, None if com else self)
        super().execute(q, args)
        if com:
            _after_commit(self.connection)


def _after_commit(con):
    s = core.SIM
    s.phase = "committed"
    f = s.seam("committed")
    if f is not None:
        # the acknowledgement of the commit is lost
        terminate(con) if f["kind"] != "pg_down" else server_crash(con)
        c = ext.cursor(con)
        c.execute("select 1")


class SimConn(ext.connection):
    def commit(self):
        s = core.SIM
        act = s is not None and s.parking and not self.closed and self.info.transaction_status != ext.TRANSACTION_STATUS_IDLE
        if act:
            f = s.seam("commit", "COMMIT")
            if f is not None:
                _enact(f, self)
        super().commit()
        if act:
            _after_commit(self)

    def close(self):
        act = not self.closed
        pid = self.info.backend_pid if act else None
        super().close()
        if act and core.SIM is not None:
            end = core.REAL_MONO() + 30
            while _state(pid) not in ("Z", None) and core.REAL_MONO() < end:
                core._real_sleep(0.001)


def connect(*a, **k):
    s = core.SIM
    if s is None:
        return _real_connect(*a, **k)
    f = s.seam("connect")
    if f is not None:
        if f["kind"] == "pg_down":
            server_crash()
        else:
            raise psycopg2.OperationalError("connection to server failed: Connection refused")
    k.setdefault("connection_factory", SimConn)
    k.setdefault("application_name", f"sim{os.getpid()}")
    c = _real_connect(*a, **k)
    c.cursor_factory = SimCursor
    return c


def install():
    psycopg2.connect = connect
    os.environ.update(PGGSSENCMODE="disable", PGSSLMODE="disable")


# -- life cycle (see dst.main) -----------------------------------------------------
def global_init():
    """One initialised cluster with the archive's schema, copied by the workers."""
    global CREATE_ERROR
    base = os.path.join(os.environ["DST_WORK"], "pg0")
    os.makedirs(base)
    os.chmod(base, 0o711)
    _chown(base)
    p = _as_pg([BIN + "/initdb", "-D", base + "/data", "-U", "root", "--auth=trust", "--no-sync", "--wal-segsize=1", "-E", "UTF8",
                "--locale=C.UTF-8"], stdout=subprocess.DEVNULL)
    if p.wait(120):
        raise core.HarnessError("initdb failed")
    with open(base + "/data/postgresql.conf", "a") as f:
        f.write(CONF)
    s = Server(base)
    s.start()
    c = s.raw("postgres")
    c.cursor().execute(f"create database {DB}")
    c.close()
    try:
        from rubin_sim.sim_archive.vseqmetadata import VisitSequenceArchiveMetadata

        pid = os.fork()
        if pid == 0:
            try:
                VisitSequenceArchiveMetadata(s.dsn(), SCHEMA).create_schema_in_database()
                os._exit(0)
            except BaseException as e:
                with open(base + "/error", "w") as f:
                    f.write(repr(e))
                os._exit(1)
        if os.waitpid(pid, 0)[1]:
            CREATE_ERROR = open(base + "/error").read()
    finally:
        s.stop()


def worker_init(ctx):
    global SERVER
    base = os.path.join(os.environ["DST_WORK"], f"pg{ctx.wid + 1}")
    os.makedirs(base)
    os.chmod(base, 0o711)
    shutil.copytree(os.path.join(os.environ["DST_WORK"], "pg0", "data"), base + "/data")
    SERVER = Server(base)
    SERVER.start()


def global_done():
    for f in glob.glob(os.path.join(os.environ["DST_WORK"], "pg*", "data", "postmaster.pid")):
        try:
            os.kill(int(open(f).readline()), signal.SIGQUIT)
        except (ValueError, OSError):
            pass
    time_end = core.REAL_MONO() + 20
    while glob.glob(os.path.join(os.environ["DST_WORK"], "pg*", "data", "postmaster.pid")) and core.REAL_MONO() < time_end:
        core._real_sleep(0.05)


def attach(run):
    """Connect a run with this worker's server."""
    s = SERVER
    s.reset(random.Random(run.scn.get("sched_seed", 0)).getrandbits(59))
    skew = float(run.scn.get("pg_skew", 0.0))
    s.clock(run.now + skew)
    run.blocker = s.blocked
    run.tick = lambda now: s.clock(now + skew)
    run.gone = lambda pid: s.wait_gone(f"sim{pid}")

    def unstick():
        # two sessions wait for each other: let the server's deadlock timer run
        s.clock(run.now + skew + 2)
        core._real_sleep(0.1)
        return True

    run.unstick = unstick
    if CREATE_ERROR:
        run.violation("no-schema", f"the archive's schema cannot be created: {CREATE_ERROR}")
    return s


def dump():
    """All rows of the archive's tables (children of visitseq apart)."""
    out = {}
    for t in [r[0] for r in SERVER.q("select tablename from pg_tables where schemaname=%s order by 1", (SCHEMA,))]:
        m = SERVER
        m.q("select 1")
        with m.mon.cursor() as c:
            c.execute(f"select * from only {SCHEMA}.{t}")
            cols = [d[0] for d in c.description]
            out[t] = [dict(zip(cols, r)) for r in c.fetchall()]
    return out
