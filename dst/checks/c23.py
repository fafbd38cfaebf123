"""C23: the commands that analyse directories of simulations leave complete, current, tracked results."""

import importlib
import inspect
import os
import random
import shutil
import sqlite3
import sys
import warnings

from .. import batch, core, rdb, sqlseam
from . import c06

PROPERTY = "C23"
LEVEL = "exploration"
RUNS = {"quick": 200, "thorough": 8000}
WALL = {"quick": 300, "thorough": 2400}
REAL = ["rubin_sim.maf glance_dir, ddf_dir, scimaf_dir, metadata_dir, maf_night_report, make_fbs_tracking_db", "MetricBundleGroup, ResultsDb, TrackingDb, add_run_to_database, PlotHandler", "SQLite", "the file system"]
STUB = ["the batches (two or three bundles each; the real ones need data files that are not here): called with the arguments the real ones take", "footprint and camera maps of the slicers",
        "the plots of the night report", "the visit databases (45 generated visits)", "clock", "process scheduling", "faults: kill at any I/O call, SQL statement or commit, torn writes"]
ASSUME = ["a crash ends the process, not the machine", "one command works on one simulation at a time", "a simulation is replaced while no command runs on it"]
RULE = "1-3 processes run the commands over 1-4 simulations, with kills, reruns, replaced simulations and different orders of the directory, while others track runs in the same database."

NAMES = ["baseline_v4.0_10yrs", "b", "one_snap_v4.0_10yrs", "simons"]
CMDS = {"glance": ("glance_dir", "_glance", "Glance"), "ddf": ("ddf_dir", "_ddf", ""), "sci": ("scimaf_dir", "_sci", "ScienceRadar"), "lim": ("scimaf_dir", "_sci", "ScienceRadar"), "meta": ("metadata_dir", "_meta", None)}
KINDS = {"glance": "Quick Look Metrics", "meta": "General Info Metrics", "sci": "Science Metrics", "ss": "Solar System Metrics", "ddf": "Deep Drilling Metrics"}
NV = 40  # visits of the database of the night report
REF = {}


def specs(cmd, mjd0=None):
    s = {"sseed": 0, "constraint": "", "cfg": 0, "col": "airmass", "sum": ["mean"], "label": None, "own": False}
    if cmd == "glance":
        return [dict(s, kind="count", slicer="uni"), dict(s, kind="mean", slicer="oned", constraint='band = "r"')]
    if cmd == "ddf":
        return [dict(s, kind="max", slicer="oned"), dict(s, kind="mean", slicer="uni", constraint="night < 6")]
    if cmd == "meta":
        return [dict(s, kind="count", slicer="hp2", sseed=1), dict(s, kind="mean", slicer="sub"), dict(s, kind="count", slicer="oned", label="o")]
    return [dict(s, kind="mean", slicer="oned"), dict(s, kind="count", slicer="uni", constraint=f"observationStartMJD < {float(mjd0) + 3!r}", label=cmd),
            dict(s, kind="vec", slicer="uni", col="fiveSigmaDepth")]


def bundles(cmd, name, mjd0=None, allsky=None, wfd=None):
    import matplotlib

    matplotlib.use("Agg")
    bs = []
    for i, s in enumerate(specs(cmd, mjd0)):
        b = batch.make_bundle(s, i, {("hp2", 1): allsky} if allsky is not None else None)
        if wfd is not None and s["slicer"] == "sub":
            b.slicer = wfd
        if s["slicer"] != "oned":
            b.plot_funcs = []
        b.set_run_name(name)
        bs.append(b)
    return bs


_patched = False


def patch():
    """The real commands, with small batches instead of those that need data files."""
    global _patched
    if _patched:
        return
    _patched = True
    from rubin_sim.maf import batches, slicers
    from rubin_sim.maf.metric_bundles import MetricBundleGroup

    mods = []
    for m in sorted({x[0] for x in CMDS.values()}):
        try:
            mods.append(importlib.import_module("rubin_sim.maf." + m))
        except ImportError:  # the runs will report it
            pass

    def stand_in(fname, cmd):
        sig = inspect.signature(getattr(batches, fname))

        def make(*args, **kw):
            a = sig.bind(*args, **kw).arguments
            name = a.get("run_name", a.get("runName", a.get("opsim")))
            bs = bundles(cmd, name, a.get("mjd0"), a.get("allsky_slicer"), a.get("wfd_slicer"))
            return {f"{cmd} {i} {name}": b for i, b in enumerate(bs)}

        real = getattr(batches, fname)
        for m in [batches] + mods:
            if getattr(m, fname, None) is real:
                setattr(m, fname, make)

    for f, c in (("glanceBatch", "glance"), ("ddfBatch", "ddf"), ("science_radar_batch", "sci"), ("radar_limited", "lim"), ("info_bundle_dicts", "meta")):
        stand_in(f, c)
    init = slicers.HealpixSlicer.__init__

    def no_camera(self, *a, **k):
        k["use_camera"] = False
        k.setdefault("radius", 20.0)
        k["use_cache"] = False
        init(self, *a, **k)

    slicers.HealpixSlicer.__init__ = no_camera
    for m in [slicers] + [m for m in mods if hasattr(m, "make_wfd_subset_slicer")]:
        m.make_wfd_subset_slicer = lambda *a, **k: batch.make_slicer({"slicer": "sub", "sseed": 0})
    plot_all = MetricBundleGroup.plot_all

    def plots(self, *a, **k):
        if os.environ.get("C23_NOPLOT") != "1":
            plot_all(self, *a, **k)

    MetricBundleGroup.plot_all = plots


def make_night_db(path):
    cols = ("observationId fieldRA fieldDec night band airmass fiveSigmaDepth altitude azimuth observationStartMJD visitTime visitExposureTime numExposures rotSkyPos slewTime slewDistance"
            " scheduler_note observationStartLST seeingFwhmEff seeingFwhmGeom skyBrightness moonPhase moonDistance solarElong filter").split()
    r = random.Random(5)
    con = sqlite3.connect(path)
    con.execute("create table observations (%s)" % ",".join(c + (" text" if c in ("band", "filter", "scheduler_note") else " float") for c in cols))
    for i in range(NV):
        v = {c: r.uniform(1, 2) for c in cols}
        v.update(observationId=i, fieldRA=r.uniform(0, 20), fieldDec=r.uniform(-20, 0), night=1 + i // (NV // 2), band=r.choice("gri"), observationStartMJD=60001.0 + i // (NV // 2) + i % (NV // 2) * 0.001,
                 altitude=60.0, azimuth=100.0, scheduler_note=r.choice(["a", "b"]), visitTime=30.0)
        v["filter"] = v["band"] + "_57"
        con.execute("insert into observations values (%s)" % ",".join("?" * len(cols)), [v[c] for c in cols])
    con.commit()
    con.close()


def night_values(path, night):
    """(metric, constraint) -> value, of the metrics of one number in the report."""
    con = sqlite3.connect(path)
    rows = con.execute("select band, slewTime from observations where night = ? order by observationStartMJD", [night]).fetchall()
    con.close()
    c = f"night={night}"
    t = [x for _, x in rows]
    res = {("N_visits", c): len(rows), ("Mean slewTime", c): sum(t) / len(t), ("Min slewTime", c): min(t), ("Max slewTime", c): max(t),
           ("Filter Changes", c): sum(a[0] != b[0] for a, b in zip(rows, rows[1:]))}
    for b in {b for b, _ in rows}:
        res["N_visits", f"{c} and band='{b}'"] = sum(x == b for x, _ in rows)
    return res


def command(cmd, args):
    name = {"fbs": "make_fbs_tracking_db", "night": "maf_night_report"}.get(cmd) or CMDS[cmd][0]
    mod = importlib.import_module("rubin_sim.maf." + name)
    old = sys.argv
    sys.argv = [name] + args
    os.environ["C23_NOPLOT"] = "1" if cmd == "night" else "0"
    try:
        getattr(mod, name)()
    finally:
        sys.argv = old


def args_of(op):
    a = []
    if op["k"] == "night":
        return ["night/n.db", "--nside", "2", "--out_dir", op["out"], "--night", str(op["night"]), "--run_name", op["run"]]
    if op["k"] == "fbs":
        return ["--opsim_list", "list"] if op["opt"] else []
    if op["db"] is not None:
        a += ["--db", op["db"]]
    if op["k"] == "ddf":
        a += ["--nside", "16"]
    if op["k"] == "meta":
        a += ["--nside", "4"]
    if op["k"] == "lim":
        a += ["--limited"]
    if op.get("keep"):
        a += ["--no_clobber"]
    return a


def warm():
    rdb.warm()
    warnings.simplefilter("ignore")
    import contextlib
    import io
    import tempfile

    patch()
    for m in ("matplotlib.backends.backend_pdf", "matplotlib.backends.backend_agg", "PIL.PngImagePlugin"):
        __import__(m)
    cwd = os.getcwd()
    with tempfile.TemporaryDirectory(dir=os.environ["DST_WORK"]) as d, contextlib.redirect_stdout(io.StringIO()):
        os.chdir(d)
        try:
            batch.make_simdb("x.db", 0)
            os.mkdir("night")
            make_night_db("night/n.db")
            for cmd in CMDS:
                try:
                    command(cmd, args_of({"k": cmd, "db": "x.db"}))
                except Exception:  # reported by the runs
                    pass
            try:
                command("night", args_of({"k": "night", "out": "o", "night": 1, "run": "r"}))
            except Exception:
                pass
        finally:
            os.chdir(cwd)


def worker_init(ctx):
    for s in range(4):
        p = os.path.join(ctx.base, f"sim{s}.db")
        if not os.path.exists(p):
            batch.make_simdb(p, s)
            con = sqlite3.connect(p)
            con.execute("create table info (Parameter text, Value text)")
            con.executemany("insert into info values (?, ?)", [("Date, ymd", f"2025-0{s + 1}-03"), ("rubin_scheduler.__version__", f"3.{s}.1"), ("exec command", "x")])
            con.commit()
            con.close()
    p = os.path.join(ctx.base, "n.db")
    if not os.path.exists(p):
        make_night_db(p)


def generate(seed, tier):
    r = random.Random(seed)
    sims = {n: r.randrange(4) for n in r.sample(NAMES, r.choice([1, 2, 2, 3, 4]))}
    p = r.choice([0.0, 0.5, 0.8])
    kinds = r.sample(["glance", "ddf", "sci", "meta"], r.choice([1, 1, 2, 3]))
    clients = []
    sub = {n: r.choice(["", "", "runs/"]) for n in sims} if r.random() < 0.4 else dict.fromkeys(sims, "")
    for c, k in enumerate(kinds):
        ops = []
        for _ in range(r.randrange(1, 4)):
            kk = "lim" if k == "sci" and r.random() < 0.4 else k
            op = {"k": kk, "db": None if r.random() < 0.5 else r.choice([sub[n] + n + ".db" for n in sims])}
            if k in ("sci", "meta"):
                op["keep"] = r.random() < 0.2
            if r.random() < p:
                op["fault"] = {"kind": r.choice(["crash", "io_crash", "io_crash", "io_torn"]), "at": r.choice([r.randrange(1, 12), r.randrange(1, 60), r.randrange(1, 200)])}
            ops.append(op)
            if r.random() < 0.3:
                ops.append({"k": "wait", "t": r.choice([1.0, 86400.0, 40 * 86400.0])})
            if len(kinds) == 1 and r.random() < 0.3:
                ops.append({"k": "replace", "sim": r.choice(list(sims)), "seed": r.randrange(4)})
        clients.append({"name": k, "ops": ops})
    if r.random() < 0.5:
        clients.append({"name": "ext", "ops": [{"k": "ext", "n": r.randrange(3), "v": i} for i in range(r.randrange(1, 4))]})
    fbs = {}
    if r.random() < 0.35:
        for n in r.sample(NAMES, r.choice([1, 2, 3])):
            fbs[n] = {"fam": r.choice(["famA", "fam_b"]), "seed": r.randrange(4), "have": r.sample(sorted(KINDS), r.randrange(0, 4))}
        ops = []
        for _ in range(r.choice([1, 2])):
            ops.append({"k": "fbs", "opt": r.random() < 0.5})
            if r.random() < p:
                ops[-1]["fault"] = {"kind": r.choice(["crash", "io_crash"]), "at": r.choice([r.randrange(1, 12), r.randrange(1, 60)])}
        ops.append({"k": "fbs", "opt": True})
        clients.append({"name": "fbs", "ops": ops})
    if r.random() < 0.1:
        ops = []
        for _ in range(r.choice([1, 2])):
            ops.append({"k": "night", "out": r.choice(["rep", "rep", "night_report"]), "night": r.choice([1, 2]), "run": r.choice(["r1", "r2"])})
            if r.random() < p:
                ops[-1]["fault"] = {"kind": r.choice(["crash", "io_crash", "io_torn"]), "at": r.choice([r.randrange(1, 12), r.randrange(1, 150)])}
        clients.append({"name": "night", "ops": ops})
    return {"clients": clients, "sims": sims, "sub": sub, "fbs": fbs, "blank": r.random() < 0.4, "sched_seed": seed, "stay": r.choice([0.4, 0.7, 0.95]), "ioyield": len(clients) > 1 and r.random() < 0.2,
            "listing": r.choice([None, seed])}


def client(scn, work, base):
    def fn(state, op):
        from rubin_sim.maf.db import add_run_to_database

        warnings.simplefilter("ignore")
        os.chdir(work)
        if op["k"] == "wait":
            core.SIM.sleep(op["t"])
        elif op["k"] == "replace":
            shutil.copy(os.path.join(base, f"sim{op['seed']}.db"), "new")
            os.replace("new", scn["sub"][op["sim"]] + op["sim"] + ".db")
        elif op["k"] == "ext":
            os.makedirs(f"other{op['n']}", exist_ok=True)
            add_run_to_database(f"other{op['n']}", "trackingDb_sqlite.db", run_name=f"o{op['n']}", maf_comment=f"v{op['v']}", maf_version="1", maf_date="d")
        else:
            command(op["k"], args_of(op))

    return fn


def reference(cmd, name, simdb, out):
    """Every bundle of the batch run alone."""
    from rubin_sim.maf.metric_bundles import MetricBundleGroup

    warnings.simplefilter("ignore")
    con = sqlite3.connect(simdb)
    mjd0 = con.execute("select min(observationStartMJD) from observations").fetchone()[0]
    con.close()
    res, bad = {}, []
    for i, (spec, b) in enumerate(zip(specs(cmd, mjd0), bundles(cmd, name, mjd0))):
        g = MetricBundleGroup({"x": b}, simdb, out_dir=os.path.join(out, f"alone{i}"), results_db=None, save_early=False)
        g.run_all()
        res.update(batch.group_results(g))
        ind = batch.independent(spec, simdb)
        if ind is not None and [None if m else round(float(v), 9) for v, m in zip(b.metric_values.data, b.metric_values.mask)] != [None if v is None else round(v, 9) for v in ind]:
            bad.append(f"{spec}: {ind} but computed {b.metric_values}"[:600])
    return {"res": res, "bad": bad}


def setup(scn, ctx, work):
    """The simulations, and the results that make_fbs_tracking_db looks for."""
    from rubin_sim.maf.db import ResultsDb

    for d in ("runs", "night", "maf"):
        os.makedirs(os.path.join(work, d))
    for n, s in scn["sims"].items():
        shutil.copy(os.path.join(ctx.base, f"sim{s}.db"), os.path.join(work, scn["sub"][n] + n + ".db"))
    shutil.copy(os.path.join(ctx.base, "n.db"), os.path.join(work, "night", "n.db"))
    lines = []
    for n, x in scn["fbs"].items():
        p = os.path.join(work, "sims", x["fam"])
        os.makedirs(p, exist_ok=True)
        shutil.copy(os.path.join(ctx.base, f"sim{x['seed']}.db"), os.path.join(p, n + ".db"))
        lines.append(f"sims/{x['fam']}/{n}.db\n")
        if scn["blank"] and len(lines) == len(scn["fbs"]):
            lines.append("\n")
        for j, k in enumerate(x["have"]):
            d = os.path.join(work, "maf", f"{n}_{k}")
            db = ResultsDb(out_dir=d)
            db.close()
            con = sqlite3.connect(os.path.join(d, "resultsDb_sqlite.db"))
            con.execute("update version set version = ?, run_date = ?", [f"mv {n} {k}", f"md {n} {k}"])
            con.commit()
            con.close()
    if lines:
        for f in ("list", "opsim_list"):
            with open(os.path.join(work, f), "w") as o:
                o.writelines(lines)
    return True


def tracked(work):
    """The committed records (another process may be in the middle of a commit, and keeps its lock)."""
    rows = {}
    if os.path.exists(os.path.join(work, "trackingDb_sqlite.db")):
        p = os.path.join(os.path.dirname(work), "copy", "t.db")
        os.makedirs(os.path.dirname(p), exist_ok=True)
        for x in ("", "-journal"):
            if os.path.exists(p + x):
                os.remove(p + x)
            if os.path.exists(os.path.join(work, "trackingDb_sqlite.db" + x)):
                shutil.copy(os.path.join(work, "trackingDb_sqlite.db" + x), p + x)
        t = sqlseam.dump(p).get("runs")
        for x in (t["rows"] if t else []):
            x = dict(zip(t["cols"], x))
            rows.setdefault(x["maf_dir"], []).append(x)
    return rows


def run(scn, ctx):
    run = core.Run(scn, ctx.base)
    try:
        work = os.path.join(run.dir, "w")
        os.makedirs(work)
        r = run.observe(setup, scn, ctx, work)
        if r[0] != "ok":
            run.violation("setup", r[1:])
            return core.result_of(run)
        sims = dict(scn["sims"])
        kept = {}  # directory -> {file root: values} that runs with --no_clobber may have left
        known = {}  # client -> its directories that were tracked

        def targets(op):
            if op["k"] not in CMDS:
                return []
            names = [n for n in sims if scn["sub"][n] == ""] if op["db"] is None else [os.path.basename(op["db"])[:-3]]
            return [(n, n + CMDS[op["k"]][1]) for n in names]

        def ref(cmd, n):
            key = (cmd, sims[n], n)
            if key not in REF:
                x = run.observe(reference, cmd, n, os.path.join(ctx.base, f"sim{sims[n]}.db"), os.path.join(run.dir, "ref", "-".join(map(str, key))))
                if x[0] != "ok" or x[1]["bad"]:
                    run.violation("alone-failed", f"{key}: {x[1:]}")
                    return {}
                REF[key] = x[1]["res"]
            return REF[key]

        def complete(where, op, n, d):
            want = {k: v for k, v in ref(op["k"], n).items()}
            must = {k for k, v in want.items() if v is not None}
            # the commands keep the statistics and plots only, not the values
            out = os.path.join(work, d)
            x = run.observe(c06.look, out)
            if x[0] != "ok":
                run.violation("unreadable", f"{where}: {d}: {x[1:]}")
                return
            old = kept.get(d, {})
            if op.get("keep"):
                c06.check_files(run, f"{where}: {d}", {k: v for k, v in x[1].items() if k in want or k not in old}, want, set())
            else:
                c06.check_files(run, f"{where}: {d}", x[1], want, set())
                c06.check_db(run, out, want, must, must)
            t = sqlseam.dump(os.path.join(out, "resultsDb_sqlite.db"))
            m = {dict(zip(t["metrics"]["cols"], y))["metric_id"]: dict(zip(t["metrics"]["cols"], y)) for y in t["metrics"]["rows"]}
            pl = [dict(zip(t["plots"]["cols"], y)) for y in t["plots"]["rows"]] if "plots" in t else []
            for k, v in want.items():
                if v is not None and v["slicer"] == "OneDSlicer":
                    mine = [y for y in pl if (m[y["metric_id"]]["metric_name"], m[y["metric_id"]]["metric_info_label"], m[y["metric_id"]]["run_name"], m[y["metric_id"]]["sql_constraint"]) == (v["metric"], v["info"], v["run"], v["constraint"])]
                    if {y["plot_type"] for y in mine} != {"BinnedData"} or (len(mine) > 1 and not op.get("keep")):
                        run.violation("no-plot", f"{where}: {d}: plots of {k}: {mine}")
            for y in pl:
                f = os.path.join(out, y["plot_file"])
                if not os.path.exists(f) or os.path.getsize(f) < 1000:
                    run.violation("no-plot", f"{where}: {d}: {y['plot_file']} is missing")
            if CMDS[op["k"]][2] is None:
                return
            rows = tracked(work).get(d, [])
            v = [dict(zip(t["version"]["cols"], y)) for y in t["version"]["rows"]]
            want = {"run_name": n, "maf_comment": CMDS[op["k"]][2], "db_file": scn["sub"][n] + n + ".db", "run_group": "NULL"}
            if v:
                want.update(maf_version=v[0]["version"], maf_date=v[0]["run_date"])
            if len(rows) != 1:
                run.violation("tracking", f"{where}: {len(rows)} records of {d}")
            elif any(rows[0][k] != w for k, w in want.items()):
                run.violation("tracking", f"{where}: {d} is tracked as {rows[0]}, expected {want}")

        def event(p, what):
            if not run.history:
                return
            hs = [h for h in run.history if h["c"] == p.name]
            if not hs or hs[-1]["s"] not in ("ok", "crash", "exc"):
                return
            h = hs[-1]
            op = h["op"]
            if h.get("seen"):
                return
            h["seen"] = True
            if h["s"] == "exc":
                run.violation("op-failed", f"{h['c']} {op}: {h['e']}: {h['m']} {h['w']}")
                return
            if op["k"] == "replace":
                if h["s"] == "ok":
                    sims[op["sim"]] = op["seed"]
                return
            mine = known.setdefault(p.name, set())
            now = tracked(work)
            for n, d in targets(op):
                if h["s"] == "ok":
                    complete(f"{h['c']} {op}", op, n, d)
                elif d in now and d not in mine and CMDS[op["k"]][2] is not None:
                    # tracked for the first time: only once its results are complete
                    complete(f"killed {h['c']} {op}", op, n, d)
                if d in now:
                    mine.add(d)
                kept.setdefault(d, {}).update(ref(op["k"], n))

        run.on_event = event
        for c in scn["clients"]:
            run.add(c["name"], client(scn, work, ctx.base), c["ops"])
        run.go()
        for h in run.history:
            h.pop("seen", None)
        others(run, scn, work)
        return core.result_of(run)
    finally:
        run.cleanup()


def others(run, scn, work):
    """Nobody's records were lost, doubled or made up."""
    rows = tracked(work)
    want = {}
    possible = set()
    last = {}
    for h in run.history:
        op = h["op"]
        if op["k"] == "ext" and h["s"] == "ok":
            want[f"other{op['n']}"] = {"run_name": f"o{op['n']}", "maf_comment": f"v{op['v']}"}
        if op["k"] in CMDS and CMDS[op["k"]][2] is not None:
            possible |= {n + CMDS[op["k"]][1] for n in scn["sims"]}
        if op["k"] == "fbs":
            last["fbs"] = h
        if op["k"] == "night":
            last.setdefault("night", []).append(h)
    fbs = {}
    for n, x in scn["fbs"].items():
        for k in x["have"]:
            fbs[f"maf/{n}_{k}"] = {"run_group": x["fam"], "run_name": n, "run_version": f"3.{x['seed']}.1", "run_date": f"2025-0{x['seed'] + 1}-03", "maf_comment": KINDS[k],
                                   "maf_version": f"mv {n} {k}", "maf_date": f"md {n} {k}", "db_file": f"sims/{x['fam']}/{n}.db"}
    if last.get("fbs") and last["fbs"]["s"] == "ok":
        want.update(fbs)
    possible |= set(want) | set(fbs)
    for d, x in rows.items():
        if d not in possible or len(x) != 1:
            run.violation("tracking", f"finally: {len(x)} records of {d}: {x}")
        w = want.get(d) or fbs.get(d) or {}
        if any(x[0][k] != v for k, v in w.items()):
            run.violation("tracking", f"finally: {d} is tracked as {x[0]}, expected {w}")
    for d in set(want) - set(rows):
        run.violation("tracking", f"finally: {d} is not tracked")
    ids = [x["maf_run_id"] for y in rows.values() for x in y]
    if len(ids) != len(set(ids)):
        run.violation("tracking", f"ids {ids}")
    for h in last.get("night", []):
        op = h["op"]
        if h["s"] != "ok":
            continue
        out = os.path.join(work, op["out"])
        t = {k: [dict(zip(v["cols"], y)) for y in v["rows"]] for k, v in sqlseam.dump(os.path.join(out, "resultsDb_sqlite.db")).items()}
        got = {}
        mine = [m for m in t["metrics"] if m["run_name"] == op["run"]]
        shared = {m["metric_datafile"] for m in mine} & {m["metric_datafile"] for m in t["metrics"] if m["run_name"] != op["run"]}
        if shared:
            run.violation("night", f"{op}: data files shared with another run: {sorted(shared)[:3]}")
        for m in t["metrics"]:
            if m["run_name"] != op["run"]:
                continue
            if m["slicer_name"] != "HourglassSlicer" and not os.path.exists(os.path.join(out, m["metric_datafile"])):
                run.violation("night", f"{op}: {m['metric_datafile']} of {m['metric_name']} {m['sql_constraint']} is missing")
            for s in t["summarystats"]:
                if s["metric_id"] == m["metric_id"] and s["summary_name"] == "Identity":
                    got[m["metric_name"], m["sql_constraint"]] = s["summary_value"]
        for k, v in night_values(os.path.join(work, "night", "n.db"), op["night"]).items():
            if k not in got or abs(float(got[k]) - v) > 1e-9:
                run.violation("night", f"{op}: {k}: {got.get(k)}, the visits give {v}")
