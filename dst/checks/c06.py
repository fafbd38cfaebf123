"""C06: a metric batch gives the same results however it is grouped, crashed or rerun."""

import glob
import os
import random
import warnings

from .. import batch, core, npz, rdb, sqlseam

PROPERTY = "C06"
LEVEL = "exploration"
RUNS = {"quick": 500, "thorough": 12000}
WALL = {"quick": 300, "thorough": 2400}
REAL = ["rubin_sim.maf MetricBundleGroup, MetricBundle, slicers, stackers, metrics, get_sim_data, ResultsDb", "numpy npz format", "SQLite", "the file system"]
STUB = ["a metric with reduce functions, a metric and a map defined by the harness", "the visit database (45 generated visits)", "clock", "process scheduling"]
ASSUME = ["a crash ends the process, not the machine: completed file operations survive", "bundles have different file names",
          "bundles do not share one-dimensional slicers (documented as unsafe)"]
RULE = "1-2 processes run batches of 1-7 generated bundles (9 metric kinds, 10 slicer kinds, 6 constraints) with kills and reruns; a third reads."

SIMDB = {}


def warm():
    rdb.warm()
    warnings.simplefilter("ignore")
    import tempfile

    r = random.Random(1)
    with tempfile.TemporaryDirectory(dir=os.environ["DST_WORK"]) as d:
        db = os.path.join(d, "s.db")
        batch.make_simdb(db, 0)
        batch.alone([dict(batch.gen_spec(r, i), kind=k, slicer=s, constraint="") for i, (k, s) in enumerate(
            [("count", "hp2"), ("vec", "points"), ("zd", "oned"), ("hpid", "nd"), ("map", "hp2"), ("mean", "uni"), ("max", "sub")])], db, d)


def worker_init(ctx):
    for s in range(4):
        p = os.path.join(ctx.base, f"sim{s}.db")
        if not os.path.exists(p):
            batch.make_simdb(p, s)


def generate(seed, tier):
    r = random.Random(seed)
    nc = r.choice([1, 1, 1, 2])
    n = r.choice([2, 3, 4, 5]) if nc == 2 else r.choice([1, 2, 3, 4, 5, 7])
    specs = [batch.gen_spec(r, i) for i in range(n)]
    if r.random() < 0.5:  # many interfering bundles
        for s in specs:
            s["slicer"], s["sseed"] = specs[0]["slicer"], specs[0]["sseed"]
            if r.random() < 0.7:
                s["kind"], s["constraint"] = specs[0]["kind"], specs[0]["constraint"]
            if r.random() < 0.6:
                s["cfg"] = specs[0]["cfg"]
            if s["kind"] == "map" and s["slicer"] not in ("hp2", "points"):
                s["kind"] = "zd"
            if s["kind"] in ("map", "vec") and s["slicer"] == "hp2c":
                s["slicer"] = "hp2"
    hour = len(specs) > 1 and r.random() < 0.15
    if hour:  # no slices either, but values that are not saved
        for s in specs:
            s["constraint"] = specs[0]["constraint"]
            if s["kind"] != "map" and r.random() < 0.7:
                s["slicer"] = r.choice(["uni", "hour"])
    clients = []
    crash = r.random() < 0.6
    for c in range(nc):
        mine = [i for i in range(n) if i % nc == c]
        ops = []
        for _ in range(r.choice([1, 2, 3]) if crash else r.choice([0, 1])):
            r.shuffle(mine)
            ops.append({"k": "batch", "b": list(mine), "as": r.choice(["list", "dict"]), "share": r.random() < 0.5, "clear": r.random() < 0.2})
            if crash:
                ops[-1]["fault"] = {"kind": r.choice(["crash", "io_crash", "io_torn"]), "at": r.choice([r.randrange(1, 12), r.randrange(1, 60), r.randrange(1, 160)])}
        r.shuffle(mine)
        ops.append({"k": "batch", "b": list(mine), "as": r.choice(["list", "dict"]), "share": r.random() < 0.5, "clear": r.random() < 0.2})
        if r.random() < 0.5 and not hour:
            ops.append({"k": "readall", "b": list(mine)})
        clients.append({"name": f"p{c}", "ops": ops})
    if r.random() < 0.4:
        clients.append({"name": "reader", "ops": [{"k": "look"} for _ in range(r.randrange(1, 5))]})
    for c in clients:
        for o in c["ops"]:
            if o["k"] == "batch" and not o["clear"] and r.random() < 0.15:
                o["late"] = True  # nothing is saved before write_all
    return {"clients": clients, "specs": specs, "sim": r.randrange(4), "sched_seed": seed, "stay": r.choice([0.3, 0.6, 0.9]),
            "ioyield": len(clients) > 1 and r.random() < 0.3}


def look(out):
    """Every saved file must be readable."""
    from rubin_sim.maf.metric_bundles import MetricBundle

    warnings.simplefilter("ignore")
    res = {}
    for p in sorted(glob.glob(os.path.join(out, "*.npz"))):
        b = MetricBundle.load(p)
        v = npz.canon(b)
        res[os.path.basename(p)[:-4]] = {"values": v["values"], "metric": v["metric"], "constraint": v["constraint"], "info": v["info"],
                                         "run": v["run"], "slicer": v["slicer"][1]}
    return res


def client(out, specs, simdb):
    def fn(state, op):
        from rubin_sim.maf.db import ResultsDb
        from rubin_sim.maf.metric_bundles import MetricBundleGroup

        warnings.simplefilter("ignore")
        if op["k"] == "look":
            core.SIM.seam("look")
            return look(out)
        shared = {} if op.get("share") else None
        bs = [batch.make_bundle(specs[i], i, shared) for i in op["b"]]
        if op["k"] == "batch":
            bd = bs if op["as"] == "list" else {f"key{i}": b for i, b in zip(op["b"], bs)}
            g = MetricBundleGroup(bd, simdb, out_dir=out, results_db=ResultsDb(out_dir=out), **({"save_early": False} if op.get("late") else {}))
            if op.get("clear"):
                g.run_all(clear_memory=True)
                return None
            g.run_all()
            g.write_all()
            return batch.group_results(g)
        if op["k"] == "readall":
            g = MetricBundleGroup(bs, simdb, out_dir=out, results_db=None)
            g.read_all()
            return batch.group_results(g)

    return fn


def run(scn, ctx):
    run = core.Run(scn, ctx.base)
    try:
        out = os.path.join(run.dir, "out")
        os.makedirs(out)
        specs = scn["specs"]
        simdb = os.path.join(ctx.base, f"sim{scn['sim']}.db")
        r = run.observe(batch.alone, specs, simdb, run.dir)
        if r[0] != "ok":
            run.violation("alone-failed", f"running a single bundle: {r[1:]} {specs}")
            return core.result_of(run)
        ref = r[1]["res"]
        for b in r[1]["bad"]:
            run.violation("wrong-values", f"a bundle run alone: {b}")
        if run.violations:
            return core.result_of(run)
        for c in scn["clients"]:
            run.add(c["name"], client(out, specs, simdb), c["ops"])
        run.go()
        done = set()
        started = set()
        full = set()
        for h in run.history:
            op = h["op"]
            if h["s"] == "exc":
                run.violation("unreadable" if op["k"] == "look" else "op-failed", f"{h['c']} {op}: {h['e']}: {h['m']} {h['w']}")
            if op["k"] == "batch":
                roots = {r[1]["roots"][i] for i in op["b"]}
                want = {k: v for k, v in ref.items() if k in roots or (k not in r[1]["roots"] and parent(k, v, ref, roots))}
                started |= set(want)
                if h["s"] != "ok":
                    full -= set(want)
                if h["s"] == "ok":
                    done |= set(want)
                    if op.get("clear"):
                        full -= set(want)
                    else:
                        full |= set(want)
                        compare(run, f"{h['c']} {op}", h["v"], want, specs)
            if op["k"] == "readall" and h["s"] == "ok":
                roots = {r[1]["roots"][i] for i in op["b"]}
                want = {k: v for k, v in ref.items() if v is not None and (k in roots or (k not in r[1]["roots"] and parent(k, v, ref, roots)))}
                got = h["v"]
                if not set(want) <= full:  # summary values are only saved by a complete batch
                    continue
                for k in sorted(set(want) | set(got)):
                    if got.get(k) is None or k not in want:
                        run.violation("read-back", f"{h['c']} {op}: bundle {k}: {'not restored' if got.get(k) is None else 'unexpected'}")
                    elif [got[k][x] for x in ("values", "metric", "constraint", "info", "slicer", "run", "summary")] != \
                            [want[k][x] for x in ("values", "metric", "constraint", "info", "slicer", "run", "summary")]:
                        run.violation("read-back", f"{h['c']} {op}: bundle {k} read back as {got[k]}, was {want[k]}")
            if op["k"] == "look" and h["s"] == "ok":
                check_files(run, f"{h['c']} look", h["v"], ref, set())
        r = run.observe(look, out)
        if r[0] != "ok":
            run.violation("unreadable", f"saved files at the end: {r[1:]}")
        else:
            check_files(run, "finally", r[1], ref, {k for k in done if ref[k] is not None and ref[k]["slicer"] != "HourglassSlicer"})
        check_db(run, out, ref, done, started)
        return core.result_of(run)
    finally:
        run.cleanup()


def parent(k, v, ref, roots):
    """Is k a reduced bundle of one of these?"""
    for p in roots:
        if ref.get(p) and v and v["metric"].startswith(ref[p]["metric"] + "_") and v["info"] == ref[p]["info"] and v["slicer"] == ref[p]["slicer"] \
                and v["constraint"] == ref[p]["constraint"]:
            return True
    return False


def compare(run, where, got, want, specs):
    for k in sorted(set(got) | set(want)):
        if k not in got or k not in want:
            run.violation("group-differs", f"{where}: bundle {k} {'missing' if k not in got else 'unexpected'}")
        elif got[k] != want[k]:
            d = "dropped" if got[k] is None else "not dropped" if want[k] is None else [(x, got[k][x], want[k][x]) for x in want[k] if got[k][x] != want[k][x]]
            run.violation("group-differs", f"{where}: bundle {k} differs from the one run alone: {str(d)[:500]} specs {specs}")


def check_files(run, where, got, ref, must):
    for k, v in got.items():
        w = ref.get(k)
        if w is None:
            run.violation("files-differ", f"{where}: file {k}.npz of no bundle")
        elif any(v[x] != w[x] for x in ("values", "metric", "constraint", "info", "run", "slicer")):
            run.violation("files-differ", f"{where}: file {k}.npz holds {v}, expected {w}")
    for k in must - set(got):
        run.violation("files-differ", f"{where}: {k}.npz was not saved")


def check_db(run, out, ref, done, started):
    path = os.path.join(out, "resultsDb_sqlite.db")
    if not os.path.exists(path):
        if done:
            run.violation("db-differs", "no results database")
        return
    t = {k: [dict(zip(v["cols"], x)) for x in v["rows"]] for k, v in sqlseam.dump(path).items()}
    for k in ("metrics", "displays", "summarystats"):
        t.setdefault(k, [])
    rows = {}
    for m in t["metrics"]:
        key = (m["metric_name"], m["slicer_name"], m["run_name"], m["sql_constraint"], m["metric_info_label"])
        if key in rows:
            run.violation("db-differs", f"metric recorded twice: {key}")
        rows[key] = m
    want = {(v["metric"], v["slicer"], v["run"], v["constraint"], v["info"]): (k, v) for k, v in ref.items() if v is not None}
    for key in rows:
        if key not in want or want[key][0] not in started:
            run.violation("db-differs", f"unexpected metric {key}")
    for key, (k, v) in want.items():
        if key not in rows:
            if k in done:
                run.violation("db-differs", f"metric {key} is not recorded")
            continue
        m = rows[key]
        late = k not in done and m["metric_datafile"] == "NULL" and any(h["op"].get("late") for h in run.history)
        if m["metric_datafile"] != k + ".npz" and not late:
            run.violation("db-differs", f"metric {key}: data file {m['metric_datafile']}, expected {k}.npz")
        disp = [d for d in t["displays"] if d["metric_id"] == m["metric_id"]]
        if len(disp) > 1 or (k in done and len(disp) != 1):
            run.violation("db-differs", f"metric {key}: {len(disp)} displays")
        elif disp and npz.show(disp[0]["display_order"]) not in (v["order"], npz.show(float(v["order"]))):
            run.violation("db-differs", f"metric {key}: display {disp[0]}, order {v['order']}")
        stats = {}
        for s in t["summarystats"]:
            if s["metric_id"] == m["metric_id"]:
                stats.setdefault(s["summary_name"], set()).add(npz.show(s["summary_value"]))
        for name, vals in stats.items():
            w = v["summary"].get(name)
            ok = isinstance(w, (str, int, float)) and all(same(x, w) for x in vals)
            if not ok:
                run.violation("db-differs", f"metric {key}: statistic {name} recorded as {vals}, computed {w}")
        if k in done:
            for name, w in v["summary"].items():
                if name not in stats and w != "nan":
                    run.violation("db-differs", f"metric {key}: statistic {name} = {w} was not recorded")


def same(a, b):
    try:
        return float(a) == float(b)
    except (TypeError, ValueError):
        return a == b
