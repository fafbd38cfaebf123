"""The SQLite seam: every statement and commit of the code under test is a
yield point and a fault point; waiting for a lock happens in simulated time
(through the nanosleep hook, so sqlite's own busy handler decides)."""

import sqlite3
import sqlite3.dbapi2

from . import core

_real_connect = sqlite3.connect
AFTER_COMMIT = None  # optional: called with the connection, right after each commit


def _seam(kind, detail=""):
    s = core.SIM
    if s is None:
        return None
    return s.seam(kind, detail)


def _enact(f):
    if f is not None and f["kind"] == "sql_locked":
        # a peer grabbed the lock and outlasted the busy timeout
        raise sqlite3.OperationalError("database is locked")


def _word(sql):
    w = str(sql).split(None, 3)
    return " ".join(w[:2]).upper()[:40]


class SimCursor(sqlite3.Cursor):
    def execute(self, sql, *a):
        _enact(_seam("sql", _word(sql)))
        return super().execute(sql, *a)

    def executemany(self, sql, *a):
        _enact(_seam("sql", _word(sql)))
        return super().executemany(sql, *a)

    def executescript(self, sql, *a):
        _enact(_seam("sql", _word(sql)))
        return super().executescript(sql, *a)

    def fetchall(self):
        r = super().fetchall()
        _seam("fetched")
        return r


class SimConnection(sqlite3.Connection):
    def cursor(self, factory=None):
        return super().cursor(SimCursor)

    def commit(self):
        act = self.in_transaction
        if act:
            _enact(_seam("commit"))
        super().commit()
        if act:
            if AFTER_COMMIT is not None:
                AFTER_COMMIT(self)
            _seam("committed")

    def rollback(self):
        super().rollback()


def connect(*a, **k):
    if core.SIM is not None:
        k.setdefault("factory", SimConnection)
        _seam("connect")
    con = _real_connect(*a, **k)
    if isinstance(con, SimConnection):
        con.simpath = str(k.get("database", a[0] if a else ""))
    return con


def install():
    sqlite3.connect = connect
    sqlite3.dbapi2.connect = connect


def raw(path):
    """A plain connection for oracles."""
    return _real_connect(path, timeout=5)


def dump(path):
    """Canonical full contents of a database file (tables and rows)."""
    con = _real_connect(f"file:{path}?mode=rw", uri=True, timeout=5)
    try:
        out = {}
        for (name,) in con.execute("select name from sqlite_master where type='table' order by name").fetchall():
            cols = [r[1] for r in con.execute(f"pragma table_info({name})")]
            rows = [list(r) for r in con.execute(f"select * from {name} order by 1")]
            out[name] = {"cols": cols, "rows": rows}
        return out
    finally:
        con.close()
