"""C01: a results database can be opened after any crash or concurrent creation."""

import datetime
import os
import random

from .. import core, rdb, sqlseam

PROPERTY = "C01"
LEVEL = "fault_enumeration"
RUNS = {"quick": 900, "thorough": 30000}
WALL = {"quick": 240, "thorough": 1800}
REAL = ["rubin_sim.maf.db.ResultsDb", "SQLAlchemy", "SQLite (file locking, journal, crash recovery)", "the file system"]
STUB = ["clock (simulated)", "process scheduling (one simulated process runs at a time)", "sleeping in sqlite's busy handler (simulated time)"]
ASSUME = ["a crash ends the process, not the machine: completed file operations survive",
          "the same metric is registered by one process at a time"]
RULE = "1-4 processes opening the same (new, half-created or older-schema) database; crash at any I/O call or statement."


def warm():
    rdb.warm()


def gen_fault(r, p):
    if r.random() > p:
        return None
    kind = r.choice(["crash", "crash", "io_crash", "io_crash", "io_torn"])
    return {"kind": kind, "at": r.randrange(1, 60) if r.random() < 0.7 else r.randrange(1, 12)}


def generate(seed, tier):
    r = random.Random(seed)
    nc = r.choice([1, 1, 2, 2, 3, 4])
    keys = rdb.gen_keys(r, nc + 1)
    init = r.choice(["none", "none", "none", "nodir", "empty", "legacy", "oldest", "current"])
    use_db = r.random() < 0.2 and init != "nodir"
    clients = []
    tag = 0
    for c in range(nc):
        ops = [{"k": "open", "fault": gen_fault(r, 0.6 if c == 0 else 0.4)}]
        for _ in range(r.randrange(0, 4)):
            tag += 1
            x = r.random()
            if x < 0.3:
                op = {"k": "reopen"}
            elif x < 0.4 and nc == 1:
                op = {"k": "downgrade"}
            else:
                op = rdb.gen_update(r, c, tag)
            op["fault"] = gen_fault(r, 0.3)
            ops.append(op)
            if op["k"] == "downgrade":
                ops.append({"k": "open", "fault": gen_fault(r, 0.5)})
        if r.random() < 0.5:
            ops.append({"k": "open"})
        clients.append({"name": f"p{c}", "ops": ops})
    return {"clients": clients, "keys": keys, "init": init, "usedb": use_db, "sched_seed": seed,
            "stay": r.choice([0.2, 0.6, 0.9]), "ioyield": r.random() < 0.6, "t0": 1.7e9 + r.randrange(0, 10**7)}


LEGACY = """
create table metrics (metricId integer primary key, metricName varchar, slicerName varchar, simDataName varchar,
  sqlConstraint varchar, {label} varchar, metricDataFile varchar);
create table version (verId integer primary key, version varchar, rundate varchar);
create table displays (displayId integer primary key, metricId integer references metrics(metricId), displayGroup varchar,
  displaySubgroup varchar, displayOrder float, displayCaption varchar);
create table plots (plotId integer primary key, metricId integer references metrics(metricId), plotType varchar, plotFile varchar);
create table summarystats (statId integer primary key, metricId integer references metrics(metricId), summaryName varchar,
  summaryValue float);
insert into version values (1, '0.9.1', '2019-05-01');
"""


def prepare(path, init, key):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    if init == "empty":
        open(path, "w").close()
        return
    if init in ("legacy", "oldest"):
        con = sqlseam.raw(path)
        con.executescript(LEGACY.format(label="metricInfoLabel" if init == "legacy" else "metricMetadata"))
        k = rdb.norm_key(key)
        con.execute("insert into metrics values (7,?,?,?,?,?,?)", k + ["old.npz"])
        con.execute("insert into displays values (1,7,'g','s',2.5,'old caption')")
        con.execute("insert into plots values (1,7,'SkyMap','old.pdf')")
        con.execute("insert into summarystats values (1,7,'Mean',12.5)")
        con.commit()
        con.close()


OLD = ("old.npz", ("g", "s", "2.5", "old caption"), (("SkyMap", "old.pdf"),), (("Mean", "12.5"),))


def run(scn, ctx):
    from rubin_sim import __version__

    run = core.Run(scn, ctx.base)
    try:
        out = os.path.join(run.dir, "a", "out")
        path = os.path.join(out, "res.db" if scn["usedb"] else "resultsDb_sqlite.db")
        openkw = {"out_dir": out, "database": "res.db"} if scn["usedb"] else {"out_dir": out}
        init = scn["init"]
        n = len(scn["keys"])
        initial = [rdb.EMPTY] * n
        if init == "current":
            r = run.observe(rdb.full_read, scn["keys"], openkw) if not scn["usedb"] else None
            if r is None:
                os.makedirs(out)
        elif init != "nodir":
            prepare(path, init, scn["keys"][-1])
            if init in ("legacy", "oldest"):
                initial[-1] = OLD

        def setup(state):
            state.update(open=openkw, keys=scn["keys"], deffile="d.npz")

        for c in scn["clients"]:
            run.add(c["name"], rdb.client, c["ops"], setup)
        run.go()
        for h in run.history:
            if h["s"] == "exc":
                run.violation("op-failed", f"{h['c']} {h['op']['k']}: {h['e']}: {h['m']} {h['w']}")
        hist = rdb.History(run, scn, "d.npz", initial)
        opened = any(h["s"] == "ok" and h["op"]["k"] in ("open", "reopen") for h in run.history)
        last = [h for h in run.history if h["op"]["k"] in ("open", "reopen", "downgrade")]
        settled = opened and last and last[-1]["s"] == "ok" and last[-1]["op"]["k"] != "downgrade"
        before = sqlseam.dump(path) if settled else None
        r = run.observe(rdb.full_read, scn["keys"], openkw)
        if r[0] != "ok":
            run.violation("open-failed", f"fresh open and read: {r[1:]}")
        else:
            after = sqlseam.dump(path)
            if before is not None and before != after:
                run.violation("altered", "opening an existing database changed its contents: "
                              + str([t for t in after if before.get(t) != after[t]]))
            r2 = run.observe(rdb.full_read, scn["keys"], openkw)
            if r2[0] != "ok" or sqlseam.dump(path) != after:
                run.violation("altered", f"a second open failed or changed the database {r2[:1]}")
            hist.check_raw(after)
            rdb.fresh_check(run, hist, scn, openkw)
            check_schema(run, after, init, __version__)
        return core.result_of(run)
    finally:
        run.cleanup()


TABLES = {
    "metrics": ["metric_id", "metric_name", "slicer_name", "run_name", "sql_constraint", "metric_info_label", "metric_datafile"],
    "version": ["version_id", "version", "run_date"],
    "displays": ["display_id", "metric_id", "display_group", "display_subgroup", "display_order", "display_caption"],
    "plots": ["plot_id", "metric_id", "plot_type", "plot_file"],
    "summarystats": ["stat_id", "metric_id", "summary_name", "summary_value"],
}


def check_schema(run, dump, init, version):
    for t, cols in TABLES.items():
        if t not in dump or not set(cols) <= set(dump[t]["cols"]):
            run.violation("schema", f"table {t} incomplete: {dump.get(t, {}).get('cols')}")
    rows = dump.get("version", {}).get("rows", [])
    if len(rows) != 1:
        run.violation("version", f"{len(rows)} version records: {rows}")
        return
    if init in ("legacy", "oldest"):
        if rows[0][1:] != ["0.9.1", "2019-05-01"]:
            run.violation("version", f"version record changed to {rows}")
        return
    t0 = datetime.datetime.fromtimestamp(run.t_first - 1).strftime("%Y-%m-%d")
    t1 = datetime.datetime.fromtimestamp(run.now + 1).strftime("%Y-%m-%d")
    if rows[0][1] != version or not t0 <= rows[0][2] <= t1:
        run.violation("version", f"version record {rows}, expected {version} on {t0}..{t1}")
