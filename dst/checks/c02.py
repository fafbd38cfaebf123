"""C02: results database records match the acknowledged history of updates."""

import os
import random

from .. import core, rdb, sqlseam

PROPERTY = "C02"
LEVEL = "exploration"
RUNS = {"quick": 900, "thorough": 30000}
WALL = {"quick": 240, "thorough": 1800}
REAL = ["rubin_sim.maf.db.ResultsDb", "SQLAlchemy", "SQLite (file locking, journal, crash recovery)", "the file system"]
STUB = ["clock (simulated)", "process scheduling (one simulated process runs at a time)", "sleeping in sqlite's busy handler (simulated time)"]
ASSUME = ["a crash ends the process, not the machine: completed file operations survive",
          "each metric is updated by one process at a time; any process reads"]
RULE = "1-3 processes, 2-6 metrics, generated updates and queries; reference model of each metric's records."


def warm():
    rdb.warm()


def gen_fault(r, p):
    if r.random() > p:
        return None
    kind = r.choice(["crash", "crash", "io_crash", "io_torn"])
    return {"kind": kind, "at": r.randrange(1, 14)}


def generate(seed, tier):
    r = random.Random(seed)
    nc = r.choice([1, 2, 2, 3])
    per = r.choice([1, 2, 3])
    keys = rdb.gen_keys(r, nc * per)
    own = list(range(len(keys)))
    r.shuffle(own)
    crash = r.choice([0.0, 0.1, 0.3])
    kinds = r.choice([("metric", "display", "plot", "stat"), ("stat", "plot"), ("display", "metric"), ("plot", "display", "stat")])
    clients = []
    tag = 0
    for c in range(nc):
        ops = []
        mine = own[c * per : (c + 1) * per]
        for _ in range(r.randrange(3, 10)):
            tag += 1
            x = r.random()
            if x < 0.65:
                op = rdb.gen_update(r, r.choice(mine), tag, kinds)
                op["fault"] = gen_fault(r, crash)
            elif x < 0.95:
                op = rdb.gen_read(r, r.choice(mine))
            else:
                op = {"k": "reopen"}
            ops.append(op)
        clients.append({"name": f"p{c}", "ops": ops})
    return {"clients": clients, "keys": keys, "sched_seed": seed, "stay": r.choice([0.1, 0.4, 0.8]),
            "ioyield": r.random() < 0.2, "pre": r.random() < 0.8}


def run(scn, ctx):
    run = core.Run(scn, ctx.base)
    try:
        out = os.path.join(run.dir, "out")
        path = os.path.join(out, "resultsDb_sqlite.db")
        openkw = {"out_dir": out}
        if scn.get("pre"):
            run.observe(rdb.full_read, scn["keys"], openkw)

        def setup(state):
            state.update(open=openkw, keys=scn["keys"], deffile="d.npz")

        for c in scn["clients"]:
            run.add(c["name"], rdb.client, c["ops"], setup)
        run.go()
        for h in run.history:
            if h["s"] == "exc":
                run.violation("op-failed", f"{h['c']} {h['op']}: {h['e']}: {h['m']} {h['w']}")
        hist = rdb.History(run, scn, "d.npz")
        r = run.observe(rdb.full_read, scn["keys"], openkw)
        if r[0] != "ok":
            run.violation("open-failed", f"fresh open and read: {r[1:]}")
        else:
            hist.check_raw(sqlseam.dump(path))
            hist.check_reads()
            rdb.fresh_check(run, hist, scn, openkw)
        return core.result_of(run)
    finally:
        run.cleanup()
