"""C05: saved metric results are never torn and agree with the results database."""

import os
import random
import warnings

from .. import core, npz, rdb, sqlseam

PROPERTY = "C05"
LEVEL = "exploration"
RUNS = {"quick": 900, "thorough": 30000}
WALL = {"quick": 240, "thorough": 1800}
REAL = ["rubin_sim.maf MetricBundle.write/load, slicers' write_data/read_data, ResultsDb", "numpy npz format", "SQLite", "the file system"]
STUB = ["clock", "process scheduling", "EIO/ENOSPC/short writes, kills and torn writes (injected below the C library)"]
ASSUME = ["a crash ends the process, not the machine: completed file operations survive",
          "metrics saved into one directory have different file names",
          "storage errors are injected where data or names are written, not in fsync or unlink"]
RULE = "1-3 processes save and load 1-4 bundles (12 slicer kinds, 5 value kinds) in several versions with suffixes and comments."


def warm():
    rdb.warm()
    npz.warm()


def generate(seed, tier):
    r = random.Random(seed)
    nb = r.choice([1, 2, 2, 4])
    specs = [npz.gen_spec(r, i) for i in range(nb)]
    nc = r.choice([1, 1, 2, 3])
    mode = r.choice(["crash", "err", "err", "clean"])
    clients = []
    ver = 0
    # in some runs every bundle has its own writer, in others they are shared
    shared = r.random() < 0.4
    sfx = [None] if r.random() < 0.5 else [None, "000", "2", "x y"]
    for c in range(nc):
        ops = []
        mine = list(range(nb)) if shared else [b for b in range(nb) if b % nc == c]
        for _ in range(r.randrange(2, 8)):
            x = r.random()
            if x < 0.6 and mine:
                ver += 1
                op = {"k": "save", "b": r.choice(mine), "ver": ver, "suffix": r.choice(sfx), "comment": r.choice(["", "", " note"]),
                      "db": r.random() < 0.6}
                if mode == "crash" and r.random() < 0.4:
                    op["fault"] = {"kind": r.choice(["io_crash", "io_torn", "io_torn", "crash"]), "at": r.randrange(1, 14)}
                elif mode == "err" and r.random() < 0.5:
                    op["fault"] = {"kind": r.choice(["io_eio", "io_enospc", "io_short"]), "at": r.randrange(1, 12),
                                   "sticky": r.choice([0, 0, 2, 50])}
            elif x < 0.85:
                op = {"k": "load", "b": r.randrange(nb), "suffix": r.choice(sfx)}
            else:
                op = {"k": "dbload"}
            ops.append(op)
        clients.append({"name": f"p{c}", "ops": ops})
    return {"clients": clients, "specs": specs, "sched_seed": seed, "stay": r.choice([0.1, 0.5, 0.8]), "ioyield": nc > 1 and r.random() < 0.7}


def path_of(spec, suffix):
    root = npz.make_bundle(spec, 0).file_root
    return root + ("" if suffix is None else "_" + suffix) + ".npz"


def load(path):
    from rubin_sim.maf.metric_bundles import MetricBundle

    return MetricBundle.load(path)


def dbload(out):
    from rubin_sim.maf.db import ResultsDb

    db = ResultsDb(out_dir=out)
    res = []
    for mid in sorted(int(i) for i in db.get_all_metric_ids()):
        info = db.get_metric_info(metric_id=mid, with_sim_name=True)[0]
        f = str(db.get_metric_data_files(metric_id=mid)[0])
        got = None
        if f != "NULL":
            try:
                got = npz.canon(load(os.path.join(out, f)))
            except Exception as e:
                got = f"{type(e).__name__}: {e}"
        res.append([f, str(info["metric_name"]), str(info["run_name"]), str(info["sql_constraint"]),
                    str(info["metric_info_label"]), str(info["slicer_name"]), got])
    db.close()
    return res


def client(out, specs):
    def fn(state, op):
        from rubin_sim.maf.db import ResultsDb

        warnings.simplefilter("ignore")
        k = op["k"]
        if k == "save":
            core.SIM.phase = "prep"
            db = None
            if op["db"]:
                if "db" not in state:
                    state["db"] = ResultsDb(out_dir=out)
                db = state["db"]
            b = npz.make_bundle(specs[op["b"]], op["ver"])
            core.SIM.phase = "call"
            b.write(comment=op["comment"], out_dir=out, outfile_suffix=op["suffix"], results_db=db)
            return None
        if k == "load":
            f = path_of(specs[op["b"]], op["suffix"])
            if not os.path.exists(os.path.join(out, f)):
                return [f, None]
            return [f, npz.canon(load(os.path.join(out, f)))]
        if k == "dbload":
            return dbload(out)

    return fn


def final(out, specs, files, versions):
    warnings.simplefilter("ignore")
    exp = {}
    names = {}
    for b, suffix in files:
        names[f"{b}/{suffix}"] = path_of(specs[b], suffix)
    for b, ver, comment in versions:
        exp[f"{b}/{ver}/{comment}"] = npz.canon(npz.make_bundle(specs[b], ver), comment)
    got = {}
    for f in set(names.values()):
        p = os.path.join(out, f)
        if not os.path.exists(p):
            got[f] = None
            continue
        try:
            x = load(p)
            got[f] = npz.canon(x)
        except Exception as e:
            got[f] = f"{type(e).__name__}: {e}"
    return {"exp": exp, "names": names, "got": got, "db": dbload(out)}


def run(scn, ctx):
    run = core.Run(scn, ctx.base)
    try:
        out = os.path.join(run.dir, "out")
        os.makedirs(out)
        specs = scn["specs"]
        for c in scn["clients"]:
            run.add(c["name"], client(out, specs), c["ops"])
        run.go()
        saves = [h for h in run.history if h["op"]["k"] == "save"]
        for h in run.history:
            if h["s"] == "exc" and not h.get("fired"):
                if h["op"]["k"] == "save" and h["op"].get("fault", {}).get("sticky") and h["e"] in ("OSError", "OperationalError"):
                    continue
                run.violation("op-failed" if h["op"]["k"] == "save" else "unreadable", f"{h['c']} {h['op']}: {h['e']}: {h['m']} {h['w']}")
        files = sorted({(h["op"]["b"], h["op"]["suffix"]) for h in saves} | {(h["op"]["b"], h["op"]["suffix"]) for h in run.history if h["op"]["k"] == "load"},
                       key=str)
        versions = sorted({(h["op"]["b"], h["op"]["ver"], h["op"]["comment"]) for h in saves}, key=str)
        r = run.observe(final, out, specs, files, versions)
        if r[0] != "ok":
            run.violation("unreadable", f"reading everything back in a new process: {r[1:]}")
            return core.result_of(run)
        r = r[1]

        def check(where, b, suffix, got, start, end):
            ws = [h for h in saves if h["op"]["b"] == b and h["op"]["suffix"] == suffix and h["start"] <= end]
            acked = [h for h in ws if h["s"] == "ok" and h["end"] < start]
            poss = [h for h in ws if not any(a["start"] > h["end"] for a in acked)] if True else ws
            if got is None:
                if acked:
                    run.violation("lost", f"{where}: {r['names'][f'{b}/{suffix}']} is gone; saved by {acked[-1]['op']}")
                return
            if isinstance(got, str):
                run.violation("unreadable", f"{where}: bundle {b} suffix {suffix}: {got}; saves {[(h['op']['ver'], h['s']) for h in ws]}")
                return
            cands = [r["exp"][f"{b}/{h['op']['ver']}/{h['op']['comment']}"] for h in poss]
            if got not in cands:
                d = [npz.diff(x, got) for x in cands]
                run.violation("wrong-content", f"{where}: bundle {specs[b]} suffix {suffix} read back different in {d}; possible versions "
                              f"{[(h['op']['ver'], h['s']) for h in poss]}; got {str(got)[:600]}")

        end = run.seq + 1
        for b, suffix in files:
            check("finally", b, suffix, r["got"][r["names"][f"{b}/{suffix}"]], end, end)
        for h in run.history:
            if h["op"]["k"] == "load" and h["s"] == "ok":
                check(f"{h['c']} load", h["op"]["b"], h["op"]["suffix"], h["v"][1], h["start"], h["end"])
            if h["op"]["k"] == "dbload" and h["s"] == "ok":
                check_db(run, h["v"], f"{h['c']} dbload")
        check_db(run, r["db"], "finally")
        have = {tuple(x[1:6]) for x in r["db"] if x[0] != "NULL"}
        for h in saves:
            if h["s"] == "ok" and h["op"]["db"]:
                e = r["exp"][f"{h['op']['b']}/{h['op']['ver']}/{h['op']['comment']}"]
                info = e["info"][: len(e["info"]) - len(h["op"]["comment"])]
                if (e["metric"], e["run"], e["constraint"], info, e["slicer"][1]) not in have:
                    run.violation("not-recorded", f"{h['op']} was acknowledged but the results database names no data file for it: {[x[:6] for x in r['db']]}")
        return core.result_of(run)
    finally:
        run.cleanup()


def check_db(run, rows, where):
    for f, name, rn, con, info, sl, got in rows:
        if f == "NULL":
            continue
        if isinstance(got, str):
            run.violation("db-file", f"{where}: data file {f!r} of metric {name!r} in the results database: {got}")
        elif not (got["metric"] == name and got["run"] == rn and got["constraint"] == con and got["info"].startswith(info) and got["slicer"][1] == sl):
            run.violation("db-file", f"{where}: data file {f!r} recorded for {[name, rn, con, info, sl]} holds {[got[k] for k in ('metric', 'run', 'constraint', 'info')]}")
