"""C04: the MAF tracking database keeps exactly one up-to-date record per run directory."""

import os
import random

from .. import core, sqlseam
from .c03 import locker

PROPERTY = "C04"
LEVEL = "exploration"
RUNS = {"quick": 900, "thorough": 30000}
WALL = {"quick": 240, "thorough": 1800}
REAL = ["rubin_sim.maf.db.TrackingDb and add_run_to_database", "rubin_sim.maf.db.ResultsDb (lookups)", "SQLAlchemy", "SQLite", "the file system"]
STUB = ["clock and sleeping (simulated)", "process scheduling", "a peer process that holds the database lock"]
ASSUME = ["a crash ends the process, not the machine", "one directory is added or deleted by one process at a time"]
RULE = "1-3 processes adding, re-adding and deleting 2-5 directories; crash at any I/O call or statement; lock holders."

FIELDS = ["run_group", "run_name", "run_comment", "run_version", "run_date", "maf_comment", "maf_version", "maf_date", "db_file"]
NDIR = 6
DIRS = ["maf0", "maf_", "MAF0", "maf%", "maf 4", "maf5", "maf6", "maf7"]  # names which differ only as patterns or in case


def warm():
    sqlseam.install()
    import shutil
    import tempfile

    from rubin_sim.maf.db import ResultsDb, TrackingDb, add_run_to_database

    d = tempfile.mkdtemp()
    os.makedirs(os.path.join(d, "r"))
    rdb = ResultsDb(out_dir=os.path.join(d, "r"))
    rdb.update_metric("a", "b", "runx", "d", "e", "f")
    import contextlib
    import io

    with contextlib.redirect_stdout(io.StringIO()):
        t = TrackingDb(os.path.join(d, "t.db"))
        t.add_run(run_name="x", maf_dir=os.path.join(d, "q"))
        i = t.add_run(run_name="x", maf_dir=os.path.join(d, "q"))
        t.delRun(i)
        add_run_to_database(os.path.join(d, "r"), os.path.join(d, "t.db"))
        t.close()
    t.Session.kw["bind"].dispose()
    rdb.Session.kw["bind"].dispose()
    shutil.rmtree(d)


def gen_fault(r, p):
    if r.random() > p:
        return None
    kind = r.choice(["crash", "crash", "io_crash", "io_torn"])
    return {"kind": kind, "at": r.randrange(1, 14)}


def generate(seed, tier):
    r = random.Random(seed)
    nc = r.choice([1, 2, 2, 3])
    own = list(range(NDIR))
    r.shuffle(own)
    per = r.choice([1, 2])
    crash = r.choice([0.0, 0.15, 0.35])
    nlock = r.choice([0, 0, 0, 1])
    clients = []
    tag = 0
    ids = r.random() < 0.4
    for c in range(nc):
        mine = own[c * per : (c + 1) * per]
        ops = []
        for _ in range(r.randrange(2, 9)):
            tag += 1
            d = r.choice(mine)
            x = r.random()
            form = r.choice(["abs", "abs", "slash", "dot", "rel"])
            if x < 0.55:
                op = {"k": "add", "d": d, "form": form, "f": gen_fields(r, tag)}
                if ids and r.random() < 0.5:
                    op["id"] = r.randrange(1, 8)
            elif x < 0.75:
                op = {"k": "addfn", "d": d, "form": form, "f": gen_fields(r, tag), "skip": r.random() < 0.3}
            elif x < 0.92:
                op = {"k": "del", "d": d}
            elif x < 0.95:
                op = {"k": "delbad"}
            else:
                op = {"k": "reopen"}
            op["fault"] = gen_fault(r, crash)
            ops.append(op)
            if nlock and r.random() < 0.3:
                ops.append({"k": "wait", "t": r.choice([0.1, 2, 20])})
        ops.append({"k": "wait", "t": 1e6 * (c + 1)})
        tag += 1
        ops.append({"k": "add", "d": mine[0], "form": "abs", "f": gen_fields(r, tag), "final": True})
        clients.append({"name": f"p{c}", "ops": ops})
    for c in range(nlock):
        ops = []
        for _ in range(r.randrange(1, 4)):
            ops.append({"k": "wait", "t": r.choice([0.0, 0.01, 0.5, 3])})
            ops.append({"k": "lock", "mode": r.choice(["exclusive", "immediate", "read"]), "t": r.choice([0.02, 1, 4, 8, 30])})
        clients.append({"name": f"lock{c}", "ops": ops})
    return {"clients": clients, "sched_seed": seed, "stay": r.choice([0.1, 0.4, 0.8]), "ioyield": r.random() < 0.2,
            "pre": r.random() < 0.5 or nlock > 0, "track": r.choice(["t.db", "sub/t.db"])}


def gen_fields(r, tag):
    f = {}
    for k in FIELDS:
        if r.random() < 0.6:
            f[k] = f"{k[:5]}{tag}" if r.random() < 0.7 else r.choice(["x", "y"])
    return f


def where(base, d, form):
    p = os.path.join(base, DIRS[d])
    if form == "abs":
        return p
    if form == "slash":
        return p + "/"
    if form == "dot":
        return os.path.join(base, ".", "x", "..", DIRS[d])
    return os.path.relpath(p)


def client(base, path):
    def fn(state, op):
        from rubin_sim.maf.db import TrackingDb, add_run_to_database

        k = op["k"]
        if k == "wait":
            core.SIM.sleep(op["t"])
            return None
        if k == "reopen":
            state["t"] = TrackingDb(path)
            return None
        if k == "addfn":
            f = dict(op["f"])
            kw = {a: f.get(a) for a in ("run_group", "run_name", "run_comment", "maf_comment", "db_file", "maf_version", "maf_date")}
            add_run_to_database(where(base, op["d"], op["form"]), path, sched_version=f.get("run_version"),
                                sched_date=f.get("run_date"), skip_extras=op["skip"], **kw)
            return None
        if "t" not in state:
            state["t"] = TrackingDb(path)
        t = state["t"]
        if k == "add":
            kw = dict(op["f"])
            if "id" in op:
                kw["maf_run_id"] = op["id"]
            return t.add_run(maf_dir=where(base, op["d"], op["form"]), **kw)
        if k == "delbad":
            t.delRun(4242)
            return None
        if k == "del":
            rel = os.path.relpath(where(base, op["d"], "abs"), os.path.dirname(path))
            con = sqlseam._real_connect(path, timeout=100000)
            row = con.execute("select maf_run_id from runs where maf_dir=?", (rel,)).fetchone()
            con.close()
            if row is None:
                return None
            t.delRun(row[0])
            return row[0]
        raise core.HarnessError(k)

    return fn


def details(op, extra):
    f = dict(op["f"])
    if op["k"] == "addfn" and not op["skip"]:
        for k, v in extra.items():
            f.setdefault(k, v)
    return tuple("NULL" if f.get(k) is None else f[k] for k in FIELDS)


def run(scn, ctx):
    run = core.Run(scn, ctx.base)
    try:
        base = run.dir
        path = os.path.join(base, scn["track"])
        os.makedirs(os.path.join(base, "sub"))
        os.makedirs(os.path.join(base, "x"))
        extra = prepare(run, base)
        if scn["pre"]:
            run.observe(make_tracking, path)
        for c in scn["clients"]:
            if c["name"].startswith("lock"):
                run.add(c["name"], locker_runs(path), c["ops"], None)
            else:
                run.add(c["name"], client(base, path), c["ops"], None)
        run.go()
        check(run, scn, base, path, extra)
        return core.result_of(run)
    finally:
        run.cleanup()


def locker_runs(path):
    def fn(state, op):
        if op["k"] == "wait":
            core.SIM.sleep(op["t"])
            return None
        con = sqlseam._real_connect(path, timeout=100000, isolation_level=None)
        if op["mode"] == "read":
            con.execute("begin")
            con.execute("select count(*) from runs").fetchall()
        else:
            con.execute("begin " + op["mode"])
        core.SIM.seam("locked")
        core.SIM.sleep(op["t"])
        con.execute("rollback")
        con.close()
        return None

    return fn


def make_tracking(path):
    from rubin_sim.maf.db import TrackingDb

    TrackingDb(path).close()


def make_results(d, name):
    from rubin_sim.maf.db import ResultsDb

    r = ResultsDb(out_dir=d)
    if name:
        r.update_metric("m", "s", name, "c", "i", "f.npz")


def prepare(run, base):
    """Directories 0,1 hold results, 2 an empty results database, others nothing."""
    import datetime

    from rubin_sim import __version__

    date = datetime.datetime.fromtimestamp(run.now).strftime("%Y-%m-%d")
    extra = {}
    for d in range(NDIR):
        p = os.path.join(base, DIRS[d])
        os.makedirs(p)
        extra[d] = {}
        if d in (0, 1):
            make_or_raise(run.observe(make_results, p, f"run{d}"))
            extra[d] = {"run_name": f"run{d}", "maf_version": __version__, "maf_date": date}
        elif d == 2:
            make_or_raise(run.observe(make_results, p, None))
            extra[d] = {"maf_version": __version__, "maf_date": date}
    return extra


def make_or_raise(r):
    if r[0] != "ok":
        raise core.HarnessError(f"prepare: {r}")


def check(run, scn, base, path, extra):
    # possible states per directory: None or (id or None, details)
    st = {d: {None} for d in range(NDIR)}
    spans = {d: [] for d in range(NDIR)}  # (start, end, states during)
    hist = run.history
    for h in hist:
        op = h["op"]
        if op["k"] not in ("add", "addfn", "del"):
            if h["s"] == "exc":
                if op["k"] == "delbad" and "Could not find" in (h["m"] or ""):
                    continue
                excuse(run, h)
            elif h["s"] == "ok" and op["k"] == "delbad":
                run.violation("bad-delete", "deleting an unknown run id did not raise")
            continue
        d = op["d"]
        before = st[d]
        after = set()
        for s in before:
            if op["k"] == "del":
                new = None
            else:
                new = (s[0] if s else op.get("id"), details(op, extra[d]))
            if h["s"] == "ok":
                if op["k"] == "del":
                    if s is None and h["v"] is None:
                        after.add(None)
                    elif s is not None and h["v"] is not None and (s[0] is None or s[0] == h["v"]):
                        after.add(None)
                elif op["k"] == "add":
                    if new[0] is None or new[0] == h["v"]:
                        after.add((h["v"], new[1]))
                else:
                    after.add(new)
            elif h["s"] == "crash":
                after |= {s, new}
            else:
                after.add(s)
        if not after:
            run.violation("bad-result", f"{h['c']} {op} returned {h['v']}, possible before: {sorted(before, key=str)}")
            after = {(h["v"], details(op, extra[d]))} if op["k"] != "del" else {None}
        if h["s"] == "exc":
            if h["e"] == "ValueError" and "already exists" in (h["m"] or "") and op.get("id"):
                # refused: some other directory must have been able to hold the id
                if not any(x for x in holders(hist, op["id"], h, extra)):
                    run.violation("refused", f"{h['c']} {op}: {h['m']} although nobody held the id")
            elif h["e"] == "IntegrityError" and op.get("id"):
                pass
            else:
                excuse(run, h)
        st[d] = after
        spans[d].append(h)
    try:
        dump = sqlseam.dump(path)
    except Exception as e:
        run.violation("unreadable", f"tracking database: {e}")
        return
    rows = {}
    for r in dump.get("runs", {"rows": []})["rows"]:
        rows.setdefault(r[-1], []).append(r)
    cols = dump["runs"]["cols"]
    tdir = os.path.dirname(path)
    names = {os.path.relpath(os.path.join(base, DIRS[d]), tdir): d for d in range(NDIR)}
    mi = cols.index("maf_dir")
    bydir = {}
    for r in dump["runs"]["rows"]:
        bydir.setdefault(r[mi], []).append(r)
    for name in bydir:
        if name not in names:
            run.violation("foreign", f"record for unknown directory {name!r}")
    for name, d in names.items():
        rr = bydir.get(name, [])
        if len(rr) > 1:
            run.violation("duplicate", f"{len(rr)} records for {name}")
            continue
        if rr:
            x = dict(zip(cols, rr[0]))
            got = (x["maf_run_id"], tuple(x[k] for k in FIELDS))
        else:
            got = None
        ok = False
        for s in st[d]:
            if s is None or got is None:
                ok |= s is None and got is None
            else:
                ok |= s[1] == got[1] and (s[0] is None or s[0] == got[0])
        if not ok:
            run.violation("final-state", f"{name}: {got}, allowed {sorted(st[d], key=str)}")


def holders(hist, rid, h, extra):
    """Operations that may have made another directory hold run id rid when h ran."""
    for g in hist:
        if g["op"]["k"] in ("add", "addfn") and g["op"]["d"] != h["op"]["d"] and g["start"] <= h["end"]:
            if g["s"] != "ok" or g["v"] in (rid, None):
                yield g


def excuse(run, h):
    what = f"{h['c']} {h['op']}: {h['e']}: {h['m']} {h['w']}"
    if h["op"].get("final"):
        run.violation("unusable", f"after all faults had ended: {what}")
        return
    others = [g for g in run.history if g["c"] != h["c"] and g["start"] <= h["end"] and (g["end"] is None or g["end"] >= h["start"])]
    if "locked" in (h["m"] or "") and any(g["op"]["k"] == "lock" for g in others):
        return
    run.violation("op-failed", what)
