"""C18: moving-object results do not depend on grouping, splitting, crashes or reruns."""

import os
import random
import sys
import warnings

from .. import core, moving, rdb, sqlseam

PROPERTY = "C18"
LEVEL = "exploration"
RUNS = {"quick": 300, "thorough": 8000}
WALL = {"quick": 300, "thorough": 2400}
REAL = ["rubin_sim.maf MoMetricBundleGroup, MoMetricBundle, MoObjSlicer, moving-object metrics and stackers, run_moving_calc, run_moving_join, read_and_combine, ResultsDb",
        "numpy npz format", "SQLite", "the file system"]
STUB = ["the populations and their observations (3-8 generated objects)", "clock", "process scheduling"]
ASSUME = ["a crash ends the process, not the machine", "the random roll-over of visibility near the detection limit is made sharp (sigma = 1e-5), except in whole run_moving_calc runs, which are seeded",
          "parent discovery bundles are not joined (documented)"]
RULE = "1-3 processes calculate generated bundles for a population, whole or split by object into 2-4 (10 for the command) parts, with kills and reruns, while others read and join."


def warm():
    rdb.warm()
    warnings.simplefilter("ignore")
    import tempfile

    from rubin_sim.maf.batches import read_and_combine  # noqa: F401
    from rubin_sim.maf import run_moving_calc, run_moving_join  # noqa: F401

    r = random.Random(1)
    with tempfile.TemporaryDirectory(dir=os.environ["DST_WORK"]) as d:
        scn = {"pop": 1, "n": 3, "ids": "int", "unseen": [], "part": [0, 1, 0], "splits": 2, "H": [19.0, 21.0],
               "specs": [dict(moving.gen_spec(r), kind=k) for k in moving.KINDS]}
        moving.write_population(scn, d)
        moving.alone(scn, d)


def fault(r):
    return {"kind": r.choice(["crash", "io_crash", "io_torn", "io_crash"]), "at": r.choice([r.randrange(1, 12), r.randrange(1, 40), r.randrange(1, 90)])}


def generate(seed, tier):
    r = random.Random(seed)
    mode = r.choice(["group", "group", "split", "split", "split", "cmd", "calc"])
    if mode == "calc":
        n = 3
        scn = {"pop": r.randrange(1000), "n": n, "ids": "int", "unseen": [], "part": [0] * n, "splits": 1, "H": [19.0, 21.0], "specs": []}
        ops = []
        for _ in range(r.choice([1, 1, 2])):
            f = fault(r)
            f["at"] = r.choice([r.randrange(1, 40), r.randrange(1, 400), r.randrange(1, 1200)])
            ops.append({"k": "calc", "fault": f})
        ops.append({"k": "calc"})
        scn.update(mode=mode, clients=[{"name": "p0", "ops": ops}], sched_seed=seed, stay=0.9,
                   args=["--objtype", r.choice(["PHA", "MBA", "TNO"]), "--characterization", r.choice(["inner", "outer"])])
        if r.random() < 0.5:
            scn["clients"].append({"name": "look", "ops": [{"k": "look", "d": "all"}] * r.randrange(1, 4)})
        return scn
    n = r.randrange(3, 8)
    k = 10 if mode == "cmd" else r.choice([2, 2, 3, 4])
    scn = {"mode": mode, "pop": r.randrange(10000), "n": n, "ids": r.choice(["int", "int", "str"]), "unseen": [i for i in range(n) if r.random() < 0.15],
           "part": [r.randrange(k) for _ in range(n)], "splits": k, "H": r.choice([[18.0, 20.0, 22.0], [19.0, 21.5], None, [16.0]]),
           "sched_seed": seed, "stay": r.choice([0.3, 0.6, 0.9])}
    nb = r.choice([1, 2]) if mode == "cmd" else r.choice([2, 3, 4, 5]) if mode == "group" else r.choice([1, 2, 3])
    specs = [moving.gen_spec(r) for _ in range(nb)]
    if r.random() < 0.6:  # interfering stackers
        c = r.choice([None, None, "night < 20"])
        for s in specs:
            s["constraint"] = c
    if mode == "group" and r.random() < 0.25:
        for s in specs:
            s["stack"] = r.choice(["mag", "apart"])
    some = mode == "group" and nb > 2 and r.random() < 0.4
    if some:  # stackers which some need, set up in several ways
        for i, s in enumerate(specs):
            s.update(loss="dmag_detect", constraint=None, stack="mag")
            if i < 2 or r.random() < 0.5:
                s.update(kind="lat", snr=None)
            elif s["kind"] == "lat":
                s.update(kind="nobs")
    scn["specs"] = specs
    crash = r.random() < 0.6
    clients = []
    np_ = 1 if some else r.choice([1, 2]) if mode == "group" else r.choice([1, 2, 3])
    for c in range(np_):
        ops = []
        if mode == "group":
            mine = [i for i in range(nb) if i % np_ == c]
            for _ in range(r.choice([1, 2]) if crash else 0):
                r.shuffle(mine)
                ops.append({"k": "group", "b": list(mine), "split": None, "d": "all", "fault": fault(r)})
            r.shuffle(mine)
            ops.append({"k": "group", "b": list(mine), "split": None, "d": "all"})
            if r.random() < 0.3:  # bundles for different H or objects are not run as one group
                ops.insert(r.randrange(len(ops) + 1), {"k": "mixed", "b": [r.randrange(nb), r.randrange(nb)], "diff": r.choice(["H", "orbits"]), "d": f"mixed{c}"})
        else:
            order = list(range(nb))
            for s in range(c, k, np_):
                r.shuffle(order)
                if crash and r.random() < (0.2 if mode == "cmd" else 0.5):
                    ops.append({"k": "group", "b": list(order), "split": s, "d": f"pop_{s}", "fault": fault(r)})
                    if r.random() < 0.25:
                        continue  # never repeated
                ops.append({"k": "group", "b": list(order), "split": s, "d": f"pop_{s}"})
        clients.append({"name": f"p{c}", "ops": [o for o in ops if o["b"]]})
    if mode != "group":
        if r.random() < 0.2:  # one part was calculated for something else
            s = r.randrange(1, k)
            clients[0]["ops"].append({"k": "group", "b": list(range(nb)), "split": s, "d": f"pop_{s}", "alien": r.choice(["H", "orbits"])})
        j = [{"k": "join", "d": "joined"} for _ in range(r.randrange(0, 3))]
        for o in j:
            if r.random() < 0.3:
                o["fault"] = fault(r)
        clients.append({"name": "join", "ops": j})
        scn["last"] = [{"k": "join", "d": "final"}]
        if mode == "split" and r.random() < 0.4:
            scn["last"].append({"k": "whole", "d": "all"})
    if r.random() < 0.4:
        clients.append({"name": "look", "ops": [{"k": "look", "d": r.choice(["all"] if mode == "group" else ["pop_0", "joined", "pop_1"])} for _ in range(r.randrange(1, 4))]})
    scn["clients"] = [c for c in clients if c["ops"]]
    return scn


def cli(name, args):
    import importlib

    mod = importlib.import_module("rubin_sim.maf." + name)
    old = sys.argv
    sys.argv = [name] + args
    try:
        getattr(mod, name)()
    except SystemExit as e:
        if e.code not in (None, 0):
            raise RuntimeError(f"{name} exits with {e.code}") from None
    finally:
        sys.argv = old


def do(scn, base, op):
    from rubin_sim.maf import batches
    from rubin_sim.maf.db import ResultsDb
    from rubin_sim.maf.metric_bundles import MoMetricBundleGroup

    warnings.simplefilter("ignore")
    d = os.path.join(base, op["d"]) if "d" in op else None
    if op["k"] == "look":
        core.SIM.seam("look")
        return moving.look(d)
    if op["k"] == "calc":
        out = op.get("d", "all")
        cli("run_moving_calc", ["--orbit_file", os.path.join(base, "pop.txt"), "--obs_file", os.path.join(base, "obs.npz"), "--out_dir", os.path.join(base, out),
                                "--simulation_db", "sim.db", "--h_min", "19", "--h_max", "21", "--h_step", "2"] + scn["args"])
        return True
    if op["k"] == "mixed":
        i, j = op["b"]
        other = dict(hv=[x + 0.5 for x in scn["H"] or [20.0]]) if op["diff"] == "H" else dict(orbits="other.txt")
        slicers = [moving.slicer_of(scn, base, None), moving.slicer_of(scn, base, None, **other)]
        bs = {"one": moving.make_bundle(scn["specs"][i], i, slicers[0]), "two": moving.make_bundle(scn["specs"][j], j + 100, slicers[1])}
        try:
            g = MoMetricBundleGroup(bs, out_dir=d, verbose=False)
        except ValueError:
            return "refused"
        g.run_all()
        got = moving.results(bs.values())
        want = {}
        for k, sl in zip(("one", "two"), slicers):
            x, n = (i, i) if k == "one" else (j, j + 100)
            b = moving.make_bundle(scn["specs"][x], n, sl)
            MoMetricBundleGroup({k: b}, out_dir=d + "_alone", verbose=False).run_all()
            want.update(moving.results([b]))
        return "same" if got == want else {k: [got.get(k), want.get(k)] for k in set(got) | set(want) if got.get(k) != want.get(k)}
    if op["k"] in ("group", "whole"):
        hv = orbits = None
        if op.get("alien") == "H":
            h = scn["H"] or [20.0]
            hv = [x + 0.5 for x in h]
        if op.get("alien") == "orbits":
            orbits = "other.txt"
        sl = moving.slicer_of(scn, base, op.get("split"), orbits or "pop.txt", hv)
        whole = op.get("split") is None and not op.get("alien")
        bs = {f"k{i}": moving.make_bundle(scn["specs"][i], i, sl, moving.summaries(scn) if whole and moving.has_summary(scn["specs"][i]) else None) for i in op.get("b", range(len(scn["specs"])))}
        g = MoMetricBundleGroup(bs, out_dir=d, results_db=ResultsDb(out_dir=d), verbose=False)
        g.run_all()
        return moving.results(bs.values()) if not op.get("alien") else True
    if op["k"] == "join":
        if scn["mode"] == "cmd":
            os.chdir(base)
            cli("run_moving_join", ["--orbit_file", "pop.txt", "--base_dir", ".", "--out_dir", op["d"]])
            return {k: moving.load(os.path.join(d, k + ".npz")) for k in sorted(op["roots"]) if os.path.exists(os.path.join(d, k + ".npz"))}
        if not os.path.isdir(d):
            os.makedirs(d, exist_ok=True)
        res = {}
        for k in sorted(op["roots"]):
            core.SIM.seam("join")
            try:
                b = batches.read_and_combine("pop", base, list(range(scn["splits"])), k + ".npz")
            except Exception as e:
                res[k] = {"raised": type(e).__name__, "m": str(e)[:200]}
                continue
            b.write(out_dir=d)
            res[k] = moving.load(os.path.join(d, k + ".npz"))
            v = moving.values_of(b)
            if v != res[k]["values"]:
                res[k]["returned"] = v
        return res


def client(scn, base):
    def fn(state, op):
        return do(scn, base, op)

    return fn


def run(scn, ctx):
    run = core.Run(scn, ctx.base)
    try:
        base = run.dir
        moving.write_population(scn, base)
        if scn["mode"] == "calc":
            calc(run, scn, base)
            return core.result_of(run)
        r = run.observe(moving.alone, scn, base)
        if r[0] != "ok":
            run.violation("alone-failed", f"running a single bundle: {r[1:]} {scn['specs']}")
            return core.result_of(run)
        for b in r[1]["bad"]:
            run.violation("wrong-values", f"a bundle run alone: {b}")
        if run.violations:
            return core.result_of(run)
        ref, roots = r[1]["res"], r[1]["roots"]
        joinable = sorted(k for k, v in ref.items() if not v["object"])
        for c in scn["clients"] + [{"ops": scn.get("last", [])}]:
            for o in c["ops"]:
                if o["k"] == "join":
                    o["roots"] = joinable
        for c in scn["clients"]:
            run.add(c["name"], client(scn, base), c["ops"])
        run.go()
        if scn.get("last"):
            run.add("last", client(scn, base), scn["last"])
            run.go()
        check(run, scn, base, ref, roots, joinable)
        return core.result_of(run)
    finally:
        run.cleanup()


FIELDS = ("values", "metric", "info", "constraint")


def same(run, where, k, got, want, fields=FIELDS):
    if want is None:
        run.violation("differs", f"{where}: {k} belongs to no bundle")
    elif any(got[f] != want[f] for f in fields):
        run.violation("differs", f"{where}: {k} differs from the bundle run alone on the whole population: " +
                      str([(f, got[f], want[f]) for f in fields if got[f] != want[f]])[:700])


def check(run, scn, base, ref, roots, joinable):
    done = {}  # split -> history position at which it was last completed
    part = [[] for _ in range(scn["splits"])]
    for h in run.history:
        op = h["op"]
        what = f"{h['c']} {dict(op, roots=0)}"
        if h["s"] == "exc":
            if not (op["k"] == "join" and scn["mode"] == "cmd"):
                run.violation("op-failed", f"{what}: {h['e']}: {h['m']} {h['w']}")
        if op["k"] == "look" and h["s"] == "ok" and not any(o["op"].get("alien") for o in run.history):
            for k, v in h["v"].items():
                if op["d"] in ("all", "joined"):
                    same(run, what, k, v, ref.get(k))
                elif k not in ref:
                    run.violation("differs", f"{what}: {k} belongs to no bundle")
        if op["k"] == "mixed" and h["s"] == "ok" and h["v"] not in ("refused", "same"):
            run.violation("mixed", f"{what}: a group of bundles for different {op['diff']} was run, with other results than apart: {str(h['v'])[:600]}")
        if op["k"] in ("group", "whole") and op.get("split") is None and h["s"] == "ok":
            for k, v in h["v"].items():
                same(run, what, k, v, ref.get(k), FIELDS + ("summary",))
            want = {k for i in op.get("b", range(len(roots))) for k in roots[i]}
            if set(h["v"]) != want:
                run.violation("differs", f"{what}: bundles {sorted(h['v'])}, expected {sorted(want)}")
    groups = [h for h in run.history if h["op"]["k"] == "group" and h["op"].get("split") is not None]
    aliens = [h for h in groups if h["op"].get("alien")]
    for h in run.history:
        if h["op"]["k"] != "join":
            continue
        what = f"{h['c']} {dict(h['op'], roots=0)}"
        # every part completed before, and none touched for something else meanwhile
        complete = all(any(g["op"]["split"] == s and g["s"] == "ok" and g["end"] <= h["start"] for g in groups) for s in range(scn["splits"]))
        never = [s for s in range(scn["splits"]) if not any(g["op"]["split"] == s and g["start"] <= (h["end"] or 1e9) for g in groups)]
        alien = [g for g in aliens if g["start"] <= (h["end"] or 1e9)]
        # an alien part that stayed: completed, nothing calculated for this split after it began
        stay = [a for a in aliens if a["s"] == "ok" and a["end"] <= h["start"] and
                not any(g is not a and g["op"]["split"] == a["op"]["split"] and (g["end"] or 1e9) > a["start"] for g in groups)]
        if h["s"] == "exc":
            if complete and not alien:
                run.violation("join-failed", f"{what}: {h['e']}: {h['m']} {h['w']}")
            continue
        if h["s"] != "ok":
            continue
        for k in joinable:
            v = h["v"].get(k)
            if v is None or "raised" in v:
                if scn["mode"] == "cmd" and skipped(ref[k]["metric"]):
                    continue
                if complete and not alien:
                    run.violation("join-failed", f"{what}: {k}: {v}")
                if h["op"]["d"] == "final" and v is None and scn["mode"] == "cmd" and complete and not alien:
                    run.violation("join-failed", f"{what}: {k} was not joined")
                continue
            if stay:
                run.violation("mixed", f"{what}: {k} was joined from parts for different {stay[0]['op']['alien']}")
            elif never:
                run.violation("mixed", f"{what}: {k} was joined although part {never[0]} was never calculated")
            elif not alien:
                same(run, what, k, v, ref[k])
                if "returned" in v:
                    run.violation("differs", f"{what}: {k} was returned with values {v['returned']} but saved with {v['values']}")
    if scn["mode"] == "group":
        r = run.observe(moving.look, os.path.join(base, "all"))
        if r[0] != "ok":
            run.violation("unreadable", f"{r[1:]}")
        else:
            for k, v in r[1].items():
                same(run, "finally", k, v, ref.get(k))
            for k in set(ref) - set(r[1]):
                run.violation("differs", f"finally: {k} was not saved")
        full = sqlseam.dump(os.path.join(base, "all", "resultsDb_sqlite.db"))
        t = full["metrics"]
        rows = [dict(zip(t["cols"], x)) for x in t["rows"]]
        have = sorted(x["metric_datafile"][:-4] for x in rows)
        if have != sorted(ref):
            run.violation("db-differs", f"results database lists {have}, expected {sorted(ref)}")
        ids = {x["metric_id"]: x["metric_datafile"][:-4] for x in rows}
        stats = [dict(zip(full["summarystats"]["cols"], x)) for x in full["summarystats"]["rows"]]
        have = sorted({(str(ids.get(x["metric_id"])), x["summary_name"], repr(x["summary_value"])) for x in stats})
        want = sorted((k, n, v) for k in ref for n, v in ref[k]["summary"].items())
        if have != want:
            run.violation("db-differs", f"summary values in the results database: {str([x for x in have if x not in want])[:300]}, expected {str([x for x in want if x not in have])[:300]}")


def skipped(metric):
    return "Discovery" in metric and not any(x in metric for x in ("DiscoveryTime", "DiscoveryNChances", "Magic", "HighVelocity"))


def calc_ref(scn, base):
    do(scn, base, {"k": "calc", "d": "ref"})
    return moving.look(os.path.join(base, "ref"))


def calc(run, scn, base):
    r = run.observe(calc_ref, scn, base)
    if r[0] != "ok":
        run.violation("op-failed", f"run_moving_calc: {r[1:]}")
        return
    ref = r[1]
    for c in scn["clients"]:
        run.add(c["name"], client(scn, base), c["ops"])
    run.go()
    for h in run.history:
        if h["s"] == "exc":
            run.violation("op-failed", f"{h['c']} {h['op']}: {h['e']}: {h['m']} {h['w']}")
        if h["op"]["k"] == "look" and h["s"] == "ok":
            for k, v in h["v"].items():
                same(run, "look", k, v, ref.get(k))
    r = run.observe(moving.look, os.path.join(base, "all"))
    if r[0] != "ok":
        run.violation("unreadable", f"{r[1:]}")
        return
    for k in sorted(set(r[1]) | set(ref)):
        if k not in r[1]:
            run.violation("differs", f"finally: {k} was not saved")
        else:
            same(run, "finally", k, r[1][k], ref.get(k))
    dbs = []
    for d in ("ref", "all"):
        t = sqlseam.dump(os.path.join(base, d, "resultsDb_sqlite.db"))
        m = [dict(zip(t["metrics"]["cols"], x)) for x in t["metrics"]["rows"]]
        ids = {x["metric_id"]: x["metric_datafile"] for x in m}
        s = [dict(zip(t["summarystats"]["cols"], x)) for x in t["summarystats"]["rows"]]
        dbs.append((sorted(ids.values(), key=str), sorted({(str(ids.get(x["metric_id"])), x["summary_name"], repr(x["summary_value"])) for x in s})))
    if dbs[0] != dbs[1]:
        run.violation("db-differs", f"the results database after crashes and reruns differs from that of one run: {str([x for x in dbs[1][0] + dbs[1][1] if x not in dbs[0][0] + dbs[0][1]])[:300]}")
