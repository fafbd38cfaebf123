"""C21: every recorded plot is there, complete, and of its own metric."""

import hashlib
import json
import os
import random
import sqlite3
import subprocess
import sys
import warnings

from .. import core, rdb, sqlseam

PROPERTY = "C21"
LEVEL = "exploration"
RUNS = {"quick": 160, "thorough": 8000}
WALL = {"quick": 300, "thorough": 2400}
REAL = ["rubin_sim.maf.plots.PlotHandler (plot, save_fig) and the histogram, binned and sky map plotters", "MetricBundle.plot, MetricBundleGroup.plot_all", "ResultsDb", "matplotlib (Agg, PDF)", "SQLite", "the file system"]
STUB = ["the metric values (generated)", "clock", "process scheduling", "faults: kill at any I/O call, SQL statement or commit, torn and short writes, I/O errors, full disk"]
ASSUME = ["a crash ends the process, not the machine", "the image of a plot is compared with the one made alone, by the same code, in an empty directory"]
RULE = "1-2 processes plot 10 bundles (3 slicer kinds), alone, in groups and combined, in two versions and two formats, into one directory, with kills, disk errors and reruns, while results are read."

COMBO = [(2, 3), (3, 2), (0, 5), (6, 7), (8, 9)]
REF = {}
SEEDS = [11, 12, 13]
OTHER = {}


def slicer(i):
    import numpy as np

    from rubin_sim.maf import slicers as S

    if i in (0, 5):
        s = S.OneDSlicer(slice_col_name="night", bins=np.arange(0.5, 9.5), verbose=False)
        s.setup_slicer(np.array([(x, 1.0) for x in range(1, 9)], dtype=[("night", float), ("airmass", float)]))
        return s, 8
    if i in (1, 8, 9):
        return S.HealpixSlicer(nside=4, use_camera=False, verbose=False), 192
    return S.UserPointsSlicer(np.linspace(0, 300, 15), np.linspace(-60, 0, 15), use_camera=False, verbose=False), 15


LABELS = [["r and DD COSMOS", "g and DD COSMOS"], ["WFD i band long name", "WFD z band long name", "other"], ["g", "g dithered twice"], ["night<10, r", "night<10, i", "u"]]


def bundle(i, ver, sky=False, lab=None):
    import numpy as np

    from rubin_sim.maf import metrics as M
    from rubin_sim.maf import plots as P
    from rubin_sim.maf.metric_bundles import MetricBundle

    s, n = slicer(i)
    band = {3: "g", 6: "i", 7: "z", 9: "g"}.get(i, "r")
    b = MetricBundle(M.MeanMetric(col="airmass", metric_name="m2" if i in (2, 3, 6, 7, 8, 9) else f"m{i}"), s, f"band = '{band}'" if lab is None else f"note = '{lab}'", run_name="run2" if i == 5 else "run1", info_label=lab or f"x {band}",
                     display_dict={"group": "g", "order": i, "caption": f"cap{i}"}, plot_dict={"title": f"title {i} {ver}"} | ({0: {"y_max": 0.6}, 2: {"xlabel": "only here", "x_max": 0.7}}.get(i, {})))
    r = np.random.RandomState(10 * i + ver)
    b.metric_values = np.ma.MaskedArray(r.uniform(0, 1, n), mask=np.ones(n, bool) if i == 4 else r.uniform(size=n) < 0.1)
    if i in (1, 8, 9):
        b.plot_funcs = [P.HealpixHistogram()] + ([P.HealpixSkyMap()] if sky else [])
    elif i in (2, 3, 4, 6, 7):
        b.plot_funcs = [P.BaseHistogram()] + ([P.BaseSkyMap()] if sky else [])
    return b


def types(i, sky):
    return [] if i == 4 else ["BinnedData"] if i in (0, 5) else ["Histogram"] + (["SkyMap"] if sky else [])


def names():
    """The names of the combined plots, and of their files, in this process."""
    import tempfile

    import matplotlib

    matplotlib.use("Agg")
    from rubin_sim.maf import plots as P
    from rubin_sim.maf.db import ResultsDb

    warnings.simplefilter("ignore")
    res = []
    with tempfile.TemporaryDirectory(dir=os.environ["DST_WORK"]) as d:
        for n, bs in enumerate([[bundle(i, 0) for i in idx] for idx in COMBO] + [[bundle(2 + k % 2, 0, lab=x) for k, x in enumerate(lab)] for lab in LABELS]):
            out = os.path.join(d, str(n))
            db = ResultsDb(out_dir=out)
            h = P.PlotHandler(out_dir=out, results_db=db, fig_format="png", dpi=10, thumbnail=False)
            h.set_metric_bundles(bs)
            h.plot(bs[0].plot_funcs[0])
            db.close()
            res.append(rows(out) + [f for f in sorted(os.listdir(out)) if f.endswith("png")])
            matplotlib.pyplot.close("all")
    return res


def image(path):
    import numpy as np
    from PIL import Image

    with open(path, "rb") as f:
        head = f.read(5)
        f.seek(0, 2)
        f.seek(max(0, f.tell() - 1024))
        tail = f.read()
    if head == b"%PDF-":
        return "pdf" if b"%%EOF" in tail else "torn pdf"
    try:
        im = Image.open(path)
        im.load()
        return hashlib.md5(np.asarray(im).tobytes()).hexdigest()[:10]
    except Exception as e:
        return f"torn image {type(e).__name__}"


def make(out, db, op, ver):
    import matplotlib.pyplot as plt

    from rubin_sim.maf import plots as P
    from rubin_sim.maf.metric_bundles import MetricBundleGroup

    import numpy as np

    np.random.seed(7)
    kw = {"fig_format": op["fmt"], "dpi": 40}
    bs = [bundle(i, ver, op["sky"]) for i in op["b"]]
    if op["how"] == "group":
        g = MetricBundleGroup({f"k{i}": b for i, b in zip(op["b"], bs)}, None, out_dir=out, results_db=db)
        g.plot_all(closefigs=op["close"], **kw)
        return
    h = P.PlotHandler(out_dir=out, results_db=db, **kw)
    if op["how"] == "bundle":
        for b in bs:
            b.plot(plot_handler=h, savefig=True)
            if op["close"]:
                plt.close("all")
    elif op["how"] == "func":
        for b in bs:
            for f in b.plot_funcs:
                b.plot(plot_handler=h, plot_func=f, savefig=True)
    else:
        for x in [bs] + [[bundle(i, ver) for i in idx] for idx in op.get("then", [])]:
            np.random.seed(7)  # of the colours
            h.set_metric_bundles(x)
            h.plot(x[0].plot_funcs[0])
    plt.close("all")


def rows(out):
    p = os.path.join(out, "resultsDb_sqlite.db")
    if not os.path.exists(p):
        return []
    con = sqlite3.connect(p, timeout=100000)
    try:
        if not con.execute("select name from sqlite_master where name = 'plots'").fetchall():
            return []
        return [list(x) for x in con.execute("select m.metric_name, m.slicer_name, m.run_name, m.sql_constraint, m.metric_info_label, p.plot_type, p.plot_file"
                                             " from plots p left join metrics m on m.metric_id = p.metric_id order by p.plot_id")]
    finally:
        con.close()


def warm():
    try:
        prepare()
    except Exception as e:
        OTHER["failed"] = f"{type(e).__name__}: {e}"


def prepare():
    rdb.warm()
    warnings.simplefilter("ignore")
    import tempfile

    import matplotlib

    matplotlib.use("Agg")
    from rubin_sim.maf.db import ResultsDb

    # processes which begin with other hash seeds
    kids = [subprocess.Popen([sys.executable, "-c", f"import json, {__name__} as c; print(json.dumps(c.names()))"], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
                             env=dict(os.environ, PYTHONHASHSEED=str(s), PYTHONPATH=os.pathsep.join(sys.path))) for s in SEEDS]
    with tempfile.TemporaryDirectory(dir=os.environ["DST_WORK"]) as d:
        for n, idx in enumerate([(i,) for i in range(6)] + COMBO):
            for ver in (0, 1):
                out = os.path.join(d, f"{n}_{ver}")
                db = ResultsDb(out_dir=out)
                make(out, db, {"b": idx, "how": "bundle" if len(idx) == 1 else "combo", "fmt": "png", "sky": True, "close": True}, ver)
                db.close()
                for r in rows(out):
                    REF[idx, ver, r[5]] = (r[:5], image(os.path.join(out, r[6])), image(os.path.join(out, "thumb." + r[6])))
        # the other format, once
        out = os.path.join(d, "pdf")
        make(out + "x" if os.mkdir(out) else out, None, {"b": (0,), "how": "bundle", "fmt": "pdf", "sky": False, "close": True}, 0)
    OTHER[None] = names()
    for s, k in zip(SEEDS, kids):
        out = k.communicate(timeout=120)[0]
        if k.returncode == 0:
            OTHER[s] = json.loads(out.decode().splitlines()[-1])


def generate(seed, tier):
    r = random.Random(seed)
    nc = r.choice([1, 1, 2])
    crash = r.choice([0, 0.4, 0.7])
    combos = r.sample(COMBO, 2) if nc == 1 and r.random() < 0.2 else None  # mostly combined plots
    clients = []
    for c in range(nc):
        ops = []
        mine = list(range(6)) if nc == 1 else ([0, 2, 3] if c == 0 else [1, 4, 5])
        fmt = r.choice(["png", "png", "pdf"])

        def plot():
            if r.random() < (0.8 if combos else 0.2) and nc == 1:
                op = {"k": "plot", "b": list(r.choice(combos or COMBO)), "how": "combo"}
                if r.random() < 0.4:  # the same plot handler is used for others
                    op["then"] = [list(r.choice(COMBO))]
            else:
                op = {"k": "plot", "b": r.sample(mine, r.choice([1, 1, 2, 3])), "how": r.choice(["group", "group", "bundle", "func"])}
            op.update(v=r.randrange(2), fmt=fmt, sky=r.random() < 0.12, close=r.random() < 0.8)
            return op

        for _ in range(r.randrange(1, 4)):
            op = plot()
            if r.random() < crash:
                x = r.random()
                if x < 0.7:
                    kind = r.choice(["io_crash", "io_crash", "io_torn", "io_torn", "io_eio", "io_enospc", "io_short"])
                    op["fault"] = {"kind": kind, "at": r.choice([r.randrange(1, 8), r.randrange(1, 40), r.randrange(1, 150)])}
                    if kind == "io_enospc":
                        op["fault"]["sticky"] = r.randrange(2)
                else:
                    op["fault"] = {"kind": "crash", "at": r.randrange(1, 40)}
            ops.append(op)
            ops.append({"k": "look"})
        if r.random() < 0.5:
            ops.append(plot())
            ops.append({"k": "look"})
        clients.append({"name": f"p{c}", "ops": ops})
    return {"clients": clients, "sched_seed": seed, "stay": r.choice([0.5, 0.8, 0.95]), "ioyield": nc > 1}


def look(out):
    res = []
    for r in rows(out):
        f = os.path.join(out, r[6])
        t = os.path.join(out, "thumb." + os.path.splitext(r[6])[0] + ".png")
        res.append([r[:5], r[5], r[6], image(f) if os.path.exists(f) else "missing", image(t) if os.path.exists(t) else "missing"])
    return res


def client(out):
    def fn(state, op):
        from rubin_sim.maf.db import ResultsDb

        warnings.simplefilter("ignore")
        if op["k"] == "look":
            return look(out)
        core.SIM.phase = "prep"
        if "db" not in state:
            state["db"] = ResultsDb(out_dir=out)
        core.SIM.phase = "call"
        make(out, state["db"], op, op["v"])
        return None

    return fn


def units(op):
    """The plots an operation makes: (bundles, plot type) pairs."""
    if op["how"] == "combo":
        return [(tuple(b), "Combo" + types(b[0], False)[0]) for b in [op["b"]] + op.get("then", [])]
    return [((i,), t) for i in op["b"] for t in types(i, op["sky"])]


def run(scn, ctx):
    run = core.Run(scn, ctx.base)
    try:
        out = os.path.join(run.dir, "out")
        os.mkdir(out)
        for c in scn["clients"]:
            run.add(c["name"], client(out), c["ops"])
        run.go()
        if "failed" in OTHER:
            run.violation("cannot-plot", OTHER["failed"])
            return core.result_of(run)
        H = sorted(run.history, key=lambda h: h["end"])
        idents = {}
        for (idx, ver, t), (key, fig, th) in REF.items():
            idents.setdefault((tuple(key), t), set()).add(idx)
        for op in (x["op"] for x in H if x["op"].get("how") == "combo"):
            here = OTHER[None]
            for s, n in OTHER.items():
                for x, y in zip(here, n):
                    if x != y:
                        run.violation("names-differ", f"{op}: {x}, but {y} in a process with another hash seed ({s})")
                        break
        # every plot of the final look and of those in between, against what was asked for
        end = run.observe(look, out)
        if end[0] != "ok":
            run.violation("unreadable", f"{end}")
            return core.result_of(run)
        H.append({"c": None, "op": {"k": "look"}, "s": "ok", "v": end[1], "end": 1e18, "start": 1e18})
        for h in H:
            op = h["op"]
            if h["s"] == "exc" and not h.get("fired") and (op.get("fault") or {}).get("kind") != "crash":
                run.violation("op-failed", f"{h['c']} {op}: {h['e']}: {h['m']} {h['w']}")
                continue
            if op["k"] != "look" or h["s"] != "ok":
                continue
            what = f"{h['c'] or 'end'} look"
            seen, files = {}, {}
            for key, t, f, fig, th in h["v"]:
                if seen.get((tuple(key), t), f) != f:
                    run.violation("two-files", f"{what}: {key} {t}: {f} and {seen[tuple(key), t]}")
                seen[tuple(key), t] = f
                if files.setdefault(f, (key, t)) != (key, t):
                    run.violation("shared-file", f"{what}: {f} is of {files[f]} and of {key} {t}")
                if "torn" in fig or "torn" in th or "missing" in (fig, th):
                    run.violation("incomplete", f"{what}: {f}: figure {fig}, thumbnail {th}")
                    continue
                idx = idents.get((tuple(key), t), set())
                # versions that may be there: the last one finished, and those begun later or at the same time
                vs = set()
                for x in H:
                    o = x["op"]
                    if o["k"] != "plot":
                        continue
                    mine = [u for u in units(o) if u[0] in idx and u[1] == t]
                    if not mine:
                        continue
                    if x["s"] == "ok" and x["end"] < h["start"]:
                        vs = {(mine[-1][0], o["v"])}
                    elif x["start"] is not None and x["start"] <= h["end"]:
                        vs.update((u[0], o["v"]) for u in mine)
                ok = [REF[i, v, t] for i, v in vs if (i, v, t) in REF]
                if th not in [x[2] for x in ok] or fig != "pdf" and fig not in [x[1] for x in ok]:
                    run.violation("wrong-plot", f"{what}: {f} ({key} {t}) shows something else than the metric alone, {sorted(vs)}: {fig} {th}, {ok}")
            for x in H:
                if x["op"]["k"] == "plot" and x["s"] == "ok" and x["end"] < h["start"]:
                    for idx, t in units(x["op"]):
                        if (idx, 0, t) not in REF:
                            run.violation("not-recorded", f"{t} of bundles {idx}, plotted on their own")
                            continue
                        key = tuple(REF[idx, 0, t][0])
                        if (key, t) not in seen:
                            run.violation("not-recorded", f"{what}: {key} {t} of {x['op']}")
        return core.result_of(run)
    finally:
        run.cleanup()
