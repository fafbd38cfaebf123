"""C03: a results update under lock contention or I/O errors takes effect or raises."""

import os
import random

from .. import core, rdb, sqlseam

PROPERTY = "C03"
LEVEL = "exploration"
RUNS = {"quick": 900, "thorough": 30000}
WALL = {"quick": 240, "thorough": 1800}
REAL = ["rubin_sim.maf.db.ResultsDb", "SQLAlchemy", "SQLite (file locking, busy handler, journal)", "the file system"]
STUB = ["clock and sleeping (simulated)", "process scheduling", "a peer process that holds the database lock", "EIO/ENOSPC on write, truncate, create (injected below SQLite)"]
ASSUME = ["storage errors are injected where data or names are written, not in fsync or unlink",
          "each metric is updated by one process at a time"]
RULE = "1-2 updating processes and 0-2 lock holders (exclusive, write or read lock, any duration); storage errors; retry settings."


def warm():
    rdb.warm()


def generate(seed, tier):
    r = random.Random(seed)
    nc = r.choice([1, 1, 2])
    keys = rdb.gen_keys(r, nc * 2)
    timeout = r.choice([0.05, 0.5, 2, 5, 30])
    nlock = r.choice([0, 1, 1, 2])
    iofault = r.choice([0.0, 0.0, 0.3]) if nlock else r.choice([0.1, 0.4])
    clients = []
    tag = 0
    for c in range(nc):
        ops = [{"k": "open"}]
        if nlock == 0 or r.random() < 0.5:
            # something to overwrite
            for m in (2 * c, 2 * c + 1):
                tag += 1
                ops.append(rdb.gen_update(r, m, tag, ("display", "display", "plot")))
        for _ in range(r.randrange(2, 7)):
            tag += 1
            if r.random() < 0.2:
                ops.append({"k": "wait", "t": r.choice([0.3, 3, 50])})
                continue
            m = 2 * c + r.randrange(2)
            if r.random() < 0.85:
                op = rdb.gen_update(r, m, tag, ("metric", "display", "display", "plot", "stat", "stat"))
                if op["k"] == "stat":
                    if r.random() < 0.9:
                        op["ntry"] = r.choice([1, 2, 3, 4])
                        op["pause"] = r.choice([1, 7, 100])
                if iofault and r.random() < iofault:
                    op["fault"] = {"kind": r.choice(["io_eio", "io_enospc"]), "at": r.randrange(1, 10), "sticky": r.choice([0, 0, 3, 40])}
                elif r.random() < 0.1:
                    op["fault"] = {"kind": "crash", "at": r.randrange(1, 12)}
                elif nlock == 0 and r.random() < 0.4:
                    op["fault"] = {"kind": "sql_locked", "at": r.randrange(1, 6), "repeat": r.choice([0, 0, 1, 2, 5]), "on": ["sql", "commit"]}
            else:
                op = rdb.gen_read(r, m)
            ops.append(op)
        # once everything else has ended, the same handle must still work
        ops.append({"k": "wait", "t": 1e7 * (c + 1)})
        tag += 1
        ops.append(dict(rdb.gen_update(r, 2 * c, tag, ("display", "plot", "stat")), final=True))
        ops.append({"k": "read", "q": "info", "ids": "none", "m": 2 * c, "sim": False, "final": True})
        clients.append({"name": f"p{c}", "ops": ops})
    for c in range(nlock):
        ops = []
        for _ in range(r.randrange(1, 4)):
            ops.append({"k": "wait", "t": r.choice([0.0, 0.01, 0.5, 3, 40])})
            ops.append({"k": "lock", "mode": r.choice(["exclusive", "immediate", "read"]),
                        "t": r.choice([0.02, 0.3, 1, 4, 20, 90, 150, 450])})
        clients.append({"name": f"lock{c}", "ops": ops})
    return {"clients": clients, "keys": keys, "sched_seed": seed, "stay": r.choice([0.1, 0.4, 0.7]), "timeout": timeout,
            "ioyield": r.random() < 0.2}


def locker(path):
    def fn(state, op):
        if op["k"] == "wait":
            core.SIM.sleep(op["t"])
            return None
        con = sqlseam._real_connect(path, timeout=100000, isolation_level=None)
        if op["mode"] == "read":
            con.execute("begin")
            con.execute("select count(*) from version").fetchall()
        else:
            con.execute("begin " + op["mode"])
        core.SIM.seam("locked")
        got = core.SIM.now
        core.SIM.sleep(op["t"])
        con.execute("rollback")
        con.close()
        return [got, core.SIM.now]

    return fn


def run(scn, ctx):
    run = core.Run(scn, ctx.base)
    try:
        out = os.path.join(run.dir, "out")
        path = os.path.join(out, "resultsDb_sqlite.db")
        openkw = {"out_dir": out, "timeout": scn["timeout"]}
        run.observe(rdb.full_read, scn["keys"], openkw)

        def setup(state):
            state.update(open=openkw, keys=scn["keys"], deffile="d.npz")

        for c in scn["clients"]:
            if c["name"].startswith("lock"):
                run.add(c["name"], locker(path), c["ops"], None)
            else:
                run.add(c["name"], rdb.client, c["ops"], setup)
        run.go()
        # lock holds in simulated time: (from, to, blocks readers, blocks writers)
        holds = [(h["v"][0], h["v"][1], h["op"]["mode"]) for h in run.history if h["op"]["k"] == "lock" and h["s"] == "ok"]
        for h in run.history:
            if h["s"] != "exc":
                continue
            if h["op"]["k"] == "lock":
                raise core.HarnessError(f"locker failed: {h['m']}")
            judge(run, scn, h, holds)
        retry_check(run, scn, holds)
        hist = rdb.History(run, scn, "d.npz")
        r = run.observe(rdb.full_read, scn["keys"], openkw)
        if r[0] != "ok":
            run.violation("open-failed", f"fresh open and read: {r[1:]}")
        else:
            hist.check_raw(sqlseam.dump(path))
            hist.check_reads()
            rdb.fresh_check(run, hist, scn, openkw)
        return core.result_of(run)
    finally:
        run.cleanup()


def judge(run, scn, h, holds):
    """An operation raised: was there a reason?"""
    what = f"{h['c']} {h['op']}: {h['e']}: {h['m']} {h['w']}"
    if h["op"].get("final"):
        run.violation("unusable", f"after all faults had ended: {what}")
        return
    if h.get("fired") or (h["op"].get("fault") or {}).get("kind") == "sql_locked":
        return
    if "locked" not in (h["m"] or ""):
        run.violation("op-failed", what)
        return
    others = [g for g in run.history if g["c"] != h["c"] and g["start"] <= h["end"] and (g["end"] is None or g["end"] >= h["start"])]
    if not others:
        run.violation("op-failed", f"locked, but nobody else was active: {what}")
        return
    if scn["timeout"] >= 20 and h["t1"] - h["t0"] < 0.8 * scn["timeout"]:
        run.violation("gave-up-early", f"after {h['t1'] - h['t0']:.2f}s of {scn['timeout']}s: {what}")


def retry_check(run, scn, holds):
    """ntry and pause_time of a summary statistic."""
    for h in run.history:
        op = h["op"]
        if op["k"] != "stat" or h["s"] not in ("ok", "exc"):
            continue
        if ("arr" in op and not op["arr"]) or isinstance(op.get("val"), str):
            continue
        ntry, pause = op.get("ntry", 3), op.get("pause", 100)
        f = op.get("fault")
        if f and f["kind"] != "sql_locked":
            continue
        if h["s"] == "exc" and "locked" in (h["m"] or "") and not registering(h):
            if h["t1"] - h["t0"] < (ntry - 1) * pause - 0.01:
                run.violation("no-retry", f"{h['c']} {op}: raised after {h['t1'] - h['t0']:.2f}s, {ntry} tries {pause}s apart are documented: {h['m']}")
        if h["s"] == "exc" and f and f["repeat"] + 1 < ntry and not registering(h):
            run.violation("no-retry", f"{h['c']} {op}: {f['repeat'] + 1} locked attempts, {ntry} tries allowed, but it raised")


def registering(h):
    """The call that failed was opening or registration of the metric, not the statistic."""
    return h["ph"] != "call"
