"""C07: gathering run summaries reports every committed statistic and disturbs nothing."""

import math
import os
import random

from .. import core, rdb, sqlseam

PROPERTY = "C07"
LEVEL = "exploration"
RUNS = {"quick": 700, "thorough": 25000}
WALL = {"quick": 240, "thorough": 1800}
REAL = ["rubin_sim.maf.run_comparison.combine_result_dbs and gather_summaries (command line)", "rubin_sim.maf.db.ResultsDb (writers)", "pandas", "SQLite (locking, hot journal recovery)", "the file system"]
STUB = ["clock and sleeping (simulated)", "process scheduling"]
ASSUME = ["each run directory has one writing process", "a value that is not a number is no value", "a crash ends the process, not the machine"]
RULE = "1-3 writing processes (killed at any I/O call or statement, restarted) while 1-2 processes gather over 1-6 directories, some without, with empty, or with half-created databases."

DB = "resultsDb_sqlite.db"
RUNNAMES = ["run_a", "run_b", "run c"]


def warm():
    rdb.warm()
    import pandas  # noqa: F401

    from rubin_sim.maf.run_comparison import gather_summaries  # noqa: F401


def gen_fault(r, p):
    if r.random() > p:
        return None
    return {"kind": r.choice(["crash", "io_crash", "io_torn"]), "at": r.randrange(1, 14)}


def gen_stat(r, m, tag):
    if r.random() < 0.2:
        return {"k": "stat", "m": m, "name": r.choice(rdb.STATS), "arr": [[f"b{j}", float(tag * 10 + j)] for j in range(r.randrange(1, 4))], "bytes": False}
    return {"k": "stat", "m": m, "name": r.choice(rdb.STATS[:3]), "val": r.choice([float(tag), tag, tag + 0.1, -tag / 3])}


def generate(seed, tier):
    r = random.Random(seed)
    nw = r.choice([1, 2, 2, 3])
    unique = r.random() < 0.5
    dirs, clients, tag = [], [], 0
    crash = r.choice([0.0, 0.2, 0.4])
    for c in range(nw):
        keys = []
        while len(keys) < 3:
            k = [r.choice(rdb.NAMES + [" Nvisits "]), r.choice(rdb.SLICERS), f"u{c}" if unique else r.choice(RUNNAMES), r.choice(rdb.CONSTR), r.choice(rdb.LABELS)]
            if stat_name(k, "x") + k[2] not in [stat_name(x, "x") + x[2] for x in keys]:
                keys.append(k)
        pre = []
        for _ in range(r.choice([0, 0, 1, 3, 6])):
            tag += 1
            pre.append(gen_stat(r, r.randrange(3), tag))
        dirs.append({"kind": "run", "keys": keys, "pre": pre, "exists": bool(pre) or r.random() < 0.5})
        ops = []
        for _ in range(r.randrange(1, 7)):
            tag += 1
            m = r.randrange(3)
            op = gen_stat(r, m, tag) if r.random() < 0.75 else rdb.gen_update(r, m, tag, ("metric", "display", "plot"))
            f = gen_fault(r, crash)
            if f:
                op["fault"] = f
            ops.append(op)
        clients.append({"name": f"w{c}", "ops": ops, "dir": c})
    for _ in range(r.choice([0, 1, 1, 2])):
        dirs.append({"kind": r.choice(["empty", "missing", "zero", "part", "nostat"])})
    for g in range(r.choice([1, 1, 2])):
        ops = []
        for _ in range(r.randrange(1, 4)):
            order = list(range(len(dirs)))
            r.shuffle(order)
            if r.random() < 0.3 and len(order) > 1:
                order.pop()
            op = {"k": "gather", "dirs": order, "cli": r.choice([None, None, None, "dirs", "base"]) if unique else r.choice([None, None, None, "dirs"])}
            if r.random() < 0.15:
                op["fault"] = {"kind": "crash", "at": r.randrange(1, 8)}
            elif r.random() < 0.15:
                op["fault"] = {"kind": "sql_locked", "at": r.randrange(1, 12), "on": ["sql"]}
            ops.append(op)
        clients.append({"name": f"g{g}", "ops": ops})
    order = list(range(len(dirs)))
    r.shuffle(order)
    return {"clients": clients, "dirs": dirs, "final": order, "sched_seed": seed, "stay": r.choice([0.1, 0.4, 0.7]), "ioyield": r.random() < 0.6}


def stat_name(key, stat):
    k = rdb.norm_key(key)
    return " ".join([stat.strip(), k[0].strip(), k[4].strip(), k[1].strip()]).replace("  ", " ")


def path_of(base, d):
    return os.path.join(base, "runs", f"d{d}")


# -- inside the simulated process ----------------------------------------------
def rows_of(df):
    out = []
    for run in df.index:
        for col in df.columns:
            v = df.loc[run, col]
            if hasattr(v, "__len__"):
                raise core.HarnessError("duplicate rows")
            v = float(v)
            if not math.isnan(v):
                out.append([str(run), str(col), repr(v)])
    return {"rows": sorted(out), "runs": [str(x) for x in df.index]}


def gather(base, op):
    import sys

    import pandas as pd
    from rubin_sim.maf.run_comparison import gather_summaries as mod

    paths = [path_of(base, d) for d in op["dirs"]]
    combine, main = mod.combine_result_dbs if hasattr(mod, "combine_result_dbs") else None, None
    if combine is None:
        import importlib

        m = importlib.import_module("rubin_sim.maf.run_comparison.gather_summaries")
        combine, main = m.combine_result_dbs, m.gather_summaries
    else:
        main = mod.gather_summaries
    if not op.get("cli"):
        return rows_of(combine(paths))
    out = os.path.join(base, f"out{os.getpid()}")
    argv = ["gather_summaries", "--outfile", out, "--to_csv"]
    if op["cli"] == "dirs":
        argv += ["--dirs", ",".join(paths)]
    else:
        argv += ["--base_dir", os.path.join(base, "runs")]
    old = sys.argv
    sys.argv = argv
    try:
        main()
    finally:
        sys.argv = old
    try:
        df = pd.read_csv(out + ".csv", index_col=0, float_precision="round_trip")
    except pd.errors.EmptyDataError:
        df = pd.DataFrame()
    os.remove(out + ".csv")
    return rows_of(df)


def gatherer(base):
    def fn(state, op):
        return gather(base, op)

    return fn


def prefill(path, keys, ops):
    state = {"open": {"out_dir": path}, "keys": keys, "deffile": "d.npz"}
    for op in [{"k": "open"}] + ops:
        rdb.client(state, op)


def prepare(run, scn, base):
    for i, d in enumerate(scn["dirs"]):
        p = path_of(base, i)
        if d["kind"] == "missing":
            continue
        os.makedirs(p)
        if d["kind"] == "run" and d["exists"]:
            r = run.observe(prefill, p, d["keys"], d["pre"])
            if r[0] != "ok":
                run.violation("open-failed", f"writing a results database: {r[1:]}")
        elif d["kind"] == "zero":
            open(os.path.join(p, DB), "w").close()
        elif d["kind"] == "part":
            con = sqlseam._real_connect(os.path.join(p, DB))
            con.execute("create table metrics (metric_id integer primary key, metric_name text, slicer_name text, run_name text, "
                        "sql_constraint text, metric_info_label text, metric_datafile text)")
            con.commit()
            con.close()
        elif d["kind"] == "nostat":
            run.observe(prefill, p, [["a", "b", "run_a", "", "x"]], [{"k": "metric", "m": 0, "file": "f"}])


def rows_added(op, key):
    """The (run, name, value) rows a stat call records."""
    run = rdb.norm_key(key)[2]
    if "arr" in op:
        return [(run, stat_name(key, f"{op['name']} {s}"), repr(float(v))) for s, v in op["arr"]]
    return [(run, stat_name(key, op["name"]), repr(float(op["val"])))]


class Dir:
    """The possible committed states of one run directory over time."""

    def __init__(self, run, scn, i):
        d = scn["dirs"][i]
        self.steps = []  # (start, end, rows, certain)
        self.base = {}
        if d["kind"] != "run":
            return
        for op in d["pre"]:
            for a, b, v in rows_added(op, d["keys"][op["m"]]):
                self.base[(a, b)] = v
        for h in run.history:
            if h["c"] == f"w{i}" and h["op"]["k"] == "stat":
                self.steps.append((h["start"], h["end"], rows_added(h["op"], d["keys"][h["op"]["m"]]), h["s"]))

    def snapshots(self, lo, hi):
        """All states a read between events lo and hi may have seen."""
        sure, maybe = [], []
        for start, end, rows, s in self.steps:
            if s == "exc":
                continue
            if s == "ok" and end <= lo:
                sure.append((rows, "ok"))
            elif s == "crash" and end <= lo:
                sure.append((rows, "crash"))
            elif start <= hi:
                maybe.append((rows, s))
        states = [dict(self.base)]
        for rows, s in sure:
            new = []
            for st in states:
                if s == "crash":
                    for n in range(len(rows) + 1):
                        new.append(plus(st, rows[:n]))
                else:
                    new.append(plus(st, rows))
            states = dedup(new)
        out = list(states)
        for rows, s in maybe:
            new = []
            for st in states:
                for n in range(len(rows) + 1):
                    out.append(plus(st, rows[:n]))
                if s == "crash":
                    new += [plus(st, rows[:n]) for n in range(len(rows) + 1)]
                else:
                    new.append(plus(st, rows))
            states = dedup(new)
        return dedup(out)


def plus(st, rows):
    st = dict(st)
    for a, b, v in rows:
        st[(a, b)] = v
    return st


def dedup(states):
    seen, out = set(), []
    for s in states:
        k = tuple(sorted(s.items()))
        if k not in seen:
            seen.add(k)
            out.append(s)
    return out[:4000]


def judge(run, scn, dirs, order, val, lo, hi, what):
    got = {(a, b): v for a, b, v in val["rows"]}
    if len(val["runs"]) != len(set(val["runs"])):
        run.violation("duplicate-run", f"{what}: rows {val['runs']}")
        return
    snaps = [dirs[d].snapshots(lo, hi) for d in order]
    keys = set(got)
    for ss in snaps:
        for s in ss:
            keys.update(s)
    for k in sorted(keys):
        ok = False
        # the last directory of the list which has the statistic decides
        later_absent = True
        for ss in reversed(snaps):
            if not later_absent:
                break
            vals = set(s.get(k) for s in ss)
            if k in got and got[k] in vals:
                ok = True
            later_absent = None in vals
        if k not in got and later_absent:
            ok = True
        if not ok:
            poss = [sorted(str(v) for v in set(s.get(k) for s in ss)) for ss in snaps]
            run.violation("wrong-value", f"{what}: {k} is {got.get(k, 'missing')}, possible per directory {poss}")
            return
    # one directory is read in one go: what only it can have comes from one state
    for i, ss in enumerate(snaps):
        mine = set(k for s in ss for k in s)
        for j, tt in enumerate(snaps):
            if j != i:
                mine -= set(k for s in tt for k in s)
        part = {k: got[k] for k in mine if k in got}
        if not any(part == {k: v for k, v in s.items() if k in mine} for s in ss):
            run.violation("mixed-states", f"{what}: directory {order[i]} shows {sorted(part.items())}, not one committed state")
            return


def listing(base):
    out = {}
    for root, ds, fs in os.walk(os.path.join(base, "runs")):
        for f in fs:
            if not f.endswith("-journal"):
                out[os.path.relpath(os.path.join(root, f), base)] = 1
        for d in ds:
            out[os.path.relpath(os.path.join(root, d), base) + "/"] = 1
    return out


def contents(base):
    out = {}
    for f in listing(base):
        if f.endswith(".db"):
            p = os.path.join(base, f)
            out[f] = sqlseam.dump(p) if os.path.getsize(p) else "zero"
    return out


def run(scn, ctx):
    run = core.Run(scn, ctx.base)
    try:
        base = run.dir
        os.makedirs(os.path.join(base, "runs"))
        prepare(run, scn, base)
        if run.violations:
            return core.result_of(run)
        for c in scn["clients"]:
            if "dir" in c:
                d = scn["dirs"][c["dir"]]

                def setup(state, i=c["dir"], keys=d["keys"]):
                    state.update(open={"out_dir": path_of(base, i)}, keys=keys, deffile="d.npz")

                run.add(c["name"], rdb.client, c["ops"], setup)
            else:
                run.add(c["name"], gatherer(base), c["ops"], None)
        run.go()
        for h in run.history:
            refused = (h["op"].get("fault") or {}).get("kind") == "sql_locked" and "locked" in str(h.get("m"))
            if h["s"] == "exc" and not refused:  # a database that cannot be read may be reported, not left out
                run.violation("op-failed", f"{h['c']} {h['op']}: {h['e']}: {h['m']} {h['w']}")
        if run.violations:
            return core.result_of(run)
        dirs = [Dir(run, scn, i) for i in range(len(scn["dirs"]))]
        for h in run.history:
            if h["op"]["k"] == "gather" and h["s"] == "ok":
                judge(run, scn, dirs, order_of(scn, h["op"]), h["v"], h["start"], h["end"], f"{h['c']} {h['op']}")
        # what was not there is not created, and a later gathering changes nothing
        for i, d in enumerate(scn["dirs"]):
            p = path_of(base, i)
            bad = (d["kind"] == "missing" and os.path.exists(p)) or (d["kind"] == "empty" and os.listdir(p))
            if bad or (d["kind"] == "zero" and os.path.getsize(os.path.join(p, DB))):
                run.violation("changed", f"gathering left something in directory {i} ({d['kind']})")
        before = listing(base)
        op = {"k": "gather", "dirs": scn["final"]}
        r = run.observe(gather, base, op)
        if r[0] != "ok":
            run.violation("op-failed", f"final {op}: {r[1:]}")
        else:
            judge(run, scn, dirs, scn["final"], r[1], run.seq + 1, run.seq + 1, "final")
        mid, c1 = listing(base), contents(base)
        r = run.observe(gather, base, op)
        if listing(base) != mid or before != mid or contents(base) != c1:
            run.violation("changed", f"gathering changed the run directories: {before} -> {listing(base)}")
        return core.result_of(run)
    finally:
        run.cleanup()


def order_of(scn, op):
    if op.get("cli") == "base":
        return list(range(len(scn["dirs"])))
    return op["dirs"]
