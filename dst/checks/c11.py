"""C11: recording is all-or-nothing under crashes and lost connections."""

import random

from .. import core, pg, vseq, vseqgen
from . import c10

PROPERTY = "C11"
LEVEL = "exploration"
RUNS = {"quick": 600, "thorough": 20000}
WALL = {"quick": 240, "thorough": 1800}
REAL = ["rubin_sim.sim_archive.vseqmetadata", "sql/make_vseqmeta.sql", "SQLAlchemy, psycopg2, pandas", "PostgreSQL 16 server (one per worker)"]
STUB = ["clocks, UUID generation and process scheduling (simulated)",
        "faults: kill at any statement or commit, session ended by the server, error of a statement, lost acknowledgement of a commit, refused connection, server crash and recovery"]
ASSUME = ["READ COMMITTED PostgreSQL 16 as installed; a server crash loses no write-ahead log", "a call that raised after its session was lost may or may not have happened"]
RULE = "1-2 clients run 2-7 archive calls each, half of them faulty; reference: sequential model in which an interrupted call happened entirely or not at all."

global_init, worker_init, global_done = pg.global_init, pg.worker_init, pg.global_done


def warm():
    vseq.warm()


def fault(r, tier):
    k = r.choice(["crash", "crash", "crash", "pg_lost", "pg_lost", "pg_err", "pg_err"] + (["pg_down"] if r.random() < 0.15 else []))
    f = {"kind": k, "at": r.randrange(1, 8)}
    x = r.random()
    if x < 0.3:
        f.update(on=["commit", "committed"], at=r.randrange(1, 4))
    elif x < 0.5:
        f.update(on=["sql"], at=r.randrange(1, 5))
    return f


def generate(seed, tier):
    r = random.Random(seed)
    g = vseqgen.Gen(r)
    init = [g.record(init=True) for _ in range(r.choice([1, 2]))]
    clients = []
    for c in range(r.choice([1, 1, 2])):
        ops = g.ops(r.randrange(2, 8), len(init), heavy=r.random() < 0.4, read=0.25, rec=0.35)
        for op in ops:
            if r.random() < 0.5:
                op["fault"] = fault(r, tier)
        clients.append({"name": f"c{c}", "ops": ops})
    return {"clients": clients, "init": init, "sched_seed": seed, "stay": r.choice([0.2, 0.5, 0.8]), "t0": g.t0}


def run(scn, ctx):
    run = core.Run(scn, ctx.base)
    try:
        pg.attach(run)

        def maybe(h):
            return bool(run.faults) and h["ph"] == "lost" or c10.deadlock(h)

        if not run.violations:
            c10.body(run, scn, maybe, faulty=True)
        return core.result_of(run)
    finally:
        run.cleanup()
