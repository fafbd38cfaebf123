"""C17: recorded times denote the same instant in every time zone and clock setting."""

import os
import random
import time

from .. import core, pg, vseq, vseqgen
from . import c10

PROPERTY = "C17"
LEVEL = "exploration"
RUNS = {"quick": 400, "thorough": 16000}
WALL = {"quick": 240, "thorough": 1800}
REAL = ["rubin_sim.sim_archive.vseqmetadata, util", "sql/make_vseqmeta.sql", "SQLAlchemy, psycopg2, pandas, astropy.time", "PostgreSQL 16 server (one per worker)"]
STUB = ["clocks of clients (skewed, stepping) and server, time zones of clients and sessions", "UUID generation and process scheduling (simulated)"]
ASSUME = ["comments are stamped by the client's clock, creation times that are not given by the server's"]
RULE = "1-3 clients in different time zones, with different session time zones and clocks, run 3-8 archive calls each; reference: sequential model in which times are instants."

global_init, worker_init, global_done = pg.global_init, pg.worker_init, pg.global_done
ZONES = ["UTC", "America/Santiago", "Asia/Kathmandu", "Pacific/Kiritimati", "Etc/GMT+12", "Etc/GMT-12", "America/Los_Angeles"]


def warm():
    vseq.warm()


def generate(seed, tier):
    r = random.Random(seed)
    g = vseqgen.Gen(r, r.choice(vseqgen.TURNS + ["2025-06-16"]))
    hot = r.choice([None, "nights", "nights"])
    init = [g.record(init=True, sim=bool(hot)) for _ in range(r.choice([1, 2, 3]))]
    clients = []
    for c in range(r.choice([1, 2, 2, 3])):
        ops = [o for o in g.ops(r.randrange(3, 9), len(init), heavy=r.random() < 0.5, hot=hot if r.random() < 0.7 else None, rec=0.3) if o["k"] != "simid"]
        for _ in range(r.randrange(3)):
            ops.insert(r.randrange(len(ops) + 1), {"k": "comment", "u": ["init", 0], "text": g.uniq("note ")})
        clients.append({"name": f"c{c}", "ops": ops, "tz": r.choice(ZONES), "pgtz": r.choice([None] + ZONES), "skew": r.choice([0.0, 0.0, 0.0, -7300.0, 5000.0, 86400.0 * 40])})
    for o in [o for c in clients for o in c["ops"]]:
        if o["k"] in ("sims", "simstats") and r.random() < 0.4:  # the current night
            for f in ("first_day_obs", "last_day_obs", "day_obs"):
                o.pop(f, None)
    for o in init + [o for c in clients for o in c["ops"]]:
        if "creation" in o:
            o["how"] = r.choice(["utc", "tai", "tt", "offset"])
    return {"clients": clients, "init": init, "audit": g.audit(len(init)) if r.random() < 0.6 else [], "atz": [r.choice(ZONES), r.choice([None] + ZONES)],
            "itz": [r.choice(ZONES), r.choice([None] + ZONES)], "sched_seed": seed, "stay": r.choice([0.05, 0.5, 0.8]), "t0": g.t0}


def zone(tz, pgtz):
    os.environ["TZ"] = tz
    time.tzset()
    if pgtz is not None:
        os.environ["PGTZ"] = pgtz


def make_init(tz, specs, now):
    zone(*tz)
    return vseq.make_init(specs, now)


def run(scn, ctx):
    run = core.Run(scn, ctx.base)
    try:
        pg.attach(run)
        if not run.violations:
            body(run, scn)
        return core.result_of(run)
    finally:
        run.cleanup()


def body(run, scn):
    o = run.observe(make_init, scn["itz"], scn["init"], run.now)
    if o[0] != "ok":
        run.violation("record-failed", f"recording {scn['init']} raised {o[1]}: {o[2]}")
        return
    init = o[1]
    f = vseq.client(init)

    def setup(tz, pgtz):
        def s(state):
            zone(tz, pgtz)
            vseq.make(state)

        return s

    for c in scn["clients"]:
        run.add(c["name"], f, c["ops"], setup=setup(c["tz"], c["pgtz"]), skew=c["skew"])
    run.go()
    if scn["audit"] and not run.violations:
        run.add("audit", f, scn["audit"], setup=setup(*scn["atz"]))
        run.go()
    if run.violations:
        return
    vseq.judge(run, init, scn["init"], pg.dump(), c10.deadlock, skews={c["name"]: c["skew"] for c in scn["clients"]}, nights=False)
