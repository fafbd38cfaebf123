"""C10: the visit sequence metadata behaves like one sequential archive."""

import random

from .. import core, pg, vseq, vseqgen

PROPERTY = "C10"
LEVEL = "exploration"
RUNS = {"quick": 400, "thorough": 20000}
WALL = {"quick": 240, "thorough": 1800}
REAL = ["rubin_sim.sim_archive.vseqmetadata", "sql/make_vseqmeta.sql", "SQLAlchemy, psycopg2, pandas", "PostgreSQL 16 server (one per worker)"]
STUB = ["clocks of clients and server, UUID generation (simulated)", "process scheduling (yield at every statement and commit)"]
ASSUME = ["READ COMMITTED PostgreSQL 16 as installed", "a deadlock reported by the server may fail a call"]
RULE = "1-3 clients run 2-8 archive calls each on shared and own sequences; reference: sequential model, linearisability search."

global_init, worker_init, global_done = pg.global_init, pg.worker_init, pg.global_done


def warm():
    vseq.warm()


def generate(seed, tier):
    r = random.Random(seed)
    g = vseqgen.Gen(r, r.choice(["2025-06-16"] * 5 + vseqgen.TURNS))
    hot = r.choice([None, None, None, "tags", "tags", "files", "conda", "url", "nights", "nights", "comments"])
    init = [g.record(init=True, sim=hot == "nights") for _ in range(r.choice([1, 2, 2, 3]))]
    clients = []
    for c in range(r.choice([1, 2, 2, 3]) if not hot else r.choice([2, 2, 3])):
        n = r.randrange(3, 9)
        clients.append({"name": f"c{c}", "ops": g.ops(n, len(init), heavy=bool(hot) or r.random() < 0.5, hot=hot, read=0.3 if hot else 0.45)})
    return {"clients": clients, "init": init, "audit": g.audit(len(init)) if r.random() < 0.5 else [], "sched_seed": seed, "stay": r.choice([0.05, 0.2, 0.5, 0.8]), "t0": g.t0}


def deadlock(h):
    return h["e"] in ("DeadlockDetected", "OperationalError") and "deadlock" in (h["m"] or "")


def run(scn, ctx):
    run = core.Run(scn, ctx.base)
    try:
        pg.attach(run)
        if not run.violations:
            body(run, scn, deadlock)
        return core.result_of(run)
    finally:
        run.cleanup()


def body(run, scn, maybe, faulty=False):
    vseq.check_sha(run)
    o = run.observe(vseq.make_init, scn["init"], run.now)
    if o[0] != "ok":
        run.violation("record-failed", f"recording {scn['init']} raised {o[1]}: {o[2]}")
        return
    init = o[1]
    f = vseq.client(init)
    for c in scn["clients"]:
        run.add(c["name"], f, c["ops"], setup=None if faulty else vseq.make)
    run.go()
    if scn.get("audit") and not run.violations:
        run.add("audit", f, scn["audit"], setup=vseq.make)
        run.go()
    if run.violations:
        return
    vseq.judge(run, init, scn["init"], pg.dump(), maybe)
