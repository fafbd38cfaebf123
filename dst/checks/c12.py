"""C12: the archive client stays usable after any failures and leaks nothing."""

import random
import weakref

from .. import core, pg, vseq, vseqgen
from . import c10, c11

PROPERTY = "C12"
LEVEL = "exploration"
RUNS = {"quick": 300, "thorough": 8000}
WALL = {"quick": 240, "thorough": 1800}
REAL = ["rubin_sim.sim_archive.vseqmetadata", "sql/make_vseqmeta.sql", "SQLAlchemy, psycopg2, pandas", "PostgreSQL 16 server (one per worker)"]
STUB = ["clocks, UUID generation and process scheduling (simulated)",
        "faults: sessions ended by the server, errors of statements, lost acknowledgements, refused connections, server crash and recovery"]
ASSUME = ["READ COMMITTED PostgreSQL 16 as installed", "one client object, used by one thread"]
RULE = "one client object makes 12-45 calls, a third refused or faulty, with sessions lost between calls; session states and counts are checked after every call, and every failing call without a fault must have used up a broken connection."

global_init, worker_init, global_done = pg.global_init, pg.worker_init, pg.global_done
MAXSESS = 8


def warm():
    vseq.warm()


def generate(seed, tier):
    r = random.Random(seed)
    g = vseqgen.Gen(r)
    init = [g.record(init=True) for _ in range(2)]
    clients = []
    n = r.randrange(12, 30 if tier == "quick" else 45)
    hot = r.choice([None, None, "stats", "frames", "bad"])
    ops = g.ops(n, 2, heavy=r.random() < 0.5, read=0.7 if hot == "frames" else 0.45, bad=0.6 if hot == "bad" else 0.15)
    rate = r.choice([0.0, 0.15, 0.4])
    for i, op in enumerate(ops):
        if hot == "stats" and r.random() < 0.6:
            op = ops[i] = dict(g.stats(0.3), u=["init", r.randrange(2)])
        if r.random() < rate:
            f = c11.fault(r, tier)
            while f["kind"] == "crash":
                f = c11.fault(r, tier)
            op["fault"] = f
        elif r.random() < rate:
            # sessions end between two calls
            op["lose"] = r.choice(["all", "one"])
    # in the end faults stop
    for _ in range(6):
        op = g.op(lambda: ["init", 0], [], 2, bad=0)
        ops.append(op)
    clients.append({"name": "c0", "ops": ops})
    return {"clients": clients, "init": init, "sched_seed": seed, "t0": g.t0}


CONNS = weakref.WeakSet()


def tracked(*a, **k):
    c = pg.connect(*a, **k)
    CONNS.add(c)
    return c


def broken():
    """Connections the client still believes in, whose session is gone."""
    return sum(1 for c in list(CONNS) if not c.closed and pg._state(c.info.backend_pid) in ("Z", None))


def client(init):
    import psycopg2

    f = vseq.client(init)

    def fn(state, op):
        psycopg2.connect = tracked
        if op.get("lose"):
            cs = [c for c in list(CONNS) if not c.closed and pg._state(c.info.backend_pid) not in ("Z", None)]
            cs.sort(key=lambda c: c.info.backend_pid)
            for c in cs[: 1 if op["lose"] == "one" else None]:
                pg.terminate(c)
                core.SIM.note("session_lost_between_calls")
        b0 = broken()
        out = {}
        try:
            out["v"] = f(state, op)
        except Exception as e:
            out["lost"] = pg.lost(e)
            out["e"] = core.exc_name(e)
            out["m"] = str(e)[:300]
            e = None
        out["broken"] = [b0, broken()]
        m = pg._real_connect(**pg.SERVER.dsn("postgres"), application_name="mon2")
        m.autocommit = True
        with m.cursor() as c:
            c.execute("select state, count(*) from pg_stat_activity where application_name=%s group by 1 order by 1", (f"sim{core.os.getpid()}",))
            out["sess"] = dict(c.fetchall())
        m.close()
        return out

    return fn


def run(scn, ctx):
    run = core.Run(scn, ctx.base)
    try:
        pg.attach(run)
        if not run.violations:
            body(run, scn)
        return core.result_of(run)
    finally:
        run.cleanup()


def body(run, scn):
    o = run.observe(vseq.make_init, scn["init"], run.now)
    if o[0] != "ok":
        run.violation("record-failed", f"recording {scn['init']} raised {o[1]}: {o[2]}")
        return
    init = o[1]
    fired = {}

    run.add("c0", client(init), scn["clients"][0]["ops"])
    before = [0]

    def ev(p, what):
        # which operations had a fault
        n = sum(run.faults.values())
        fired[len(run.history) - 1] = n > before[0]
        before[0] = n

    run.on_event = ev
    run.go()
    if run.violations:
        return
    stall = 0
    for i, h in enumerate(run.history):
        if h["s"] != "ok":
            run.violation("harness-crash", f"{h}")
            return
        v = h["v"]
        op = {k: x for k, x in h["op"].items() if k != "fault"}
        bad = {s: n for s, n in v["sess"].items() if s not in ("idle",)}
        if bad:
            run.violation("open-transaction", f"after call {i} {op} ({v.get('e')}) sessions are left {bad}")
            return
        if sum(v["sess"].values()) > MAXSESS:
            run.violation("leak", f"after call {i} {op} the client holds {v['sess']} sessions")
            return
        e = v.get("e")
        if e == "PoolError":
            run.violation("exhausted", f"call {i} {op} raised {e}: {v['m']}")
            return
        if e and not fired.get(i) and v["lost"] and not c10.deadlock(v):
            b0, b1 = v["broken"]
            # psycopg2 sometimes notices a connection is gone only at the
            # second error
            stall = stall + 1 if b1 >= b0 else 0
            if stall > 1 or not b0:
                run.violation("no-progress", f"call {i} {op} met no fault but raised {e}: {v['m']} (broken connections before {b0}, after {b1})")
                return
        elif not e:
            stall = 0
        # back to the form the model judges
        if e is None:
            h["v"] = v["v"]
        else:
            h.update(s="exc", e=e, m=v["m"], ph=v["lost"], v=None)
    vseq.judge(run, init, scn["init"], pg.dump(), lambda h: h["ph"])
