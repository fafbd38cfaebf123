"""C20: what a simulation leaves behind is complete and says what it is."""

import bz2
import gzip
import hashlib
import lzma
import os
import pickle
import random
import sqlite3
import sys

from .. import core

PROPERTY = "C20"
LEVEL = "exploration"
RUNS = {"quick": 420, "thorough": 15000}
WALL = {"quick": 240, "thorough": 1800}
REAL = ["rubin_sim.sim_archive.sim_archive (make_sim_data_dir, drive_sim)", "rubin_sim.sim_archive.prenight (run_prenight_sim_cli, compute_sim_start_and_end, AnomalousOverheadFunc)",
        "rubin_sim.sim_archive.make_snapshot (save_scheduler, get_scheduler, get_scheduler_from_config and the commands)", "rubin_scheduler SchemaConverter and ObservationArray", "SQLite, HDF5, pandas, yaml, pickle and its compressions", "the file system"]
STUB = ["sim_runner (gives generated visits and rewards)", "the scheduler and the observatory (small classes which can be pickled)", "Almanac (a table of 400 nights)",
        "clock", "process scheduling", "faults: kill at any I/O call, torn and short writes, I/O errors, full disk"]
ASSUME = ["a crash ends the process, not the machine", "one process fills a given directory at a time; others may read it",
          "HDF5 reports failures to write (disk errors are not injected in simulations with rewards, kills are)"]
RULE = "1-3 processes fill new and used directories with simulations, run simulations and prenight simulations, write and read scheduler and observatory snapshots, with kills and disk errors, and look into each other's directories."

EXT = ["", ".gz", ".bz2", ".xz"]
NIGHT0 = 60796
IN = ["a/run.py", "b/run.py", "a/notes.ipynb", "a/opsim.db", "b/sim_metadata.yaml", "b/obs_stats.txt"]


def _classes():
    from rubin_scheduler.scheduler.schedulers.core_scheduler import CoreScheduler

    class FakeScheduler(CoreScheduler):
        def __init__(self, n=0, pad=0):
            self.keep_rewards = False
            self.nside = 32
            self.n = n
            self.seen = 0
            self.pad = random.Random(n).randbytes(pad)

        def add_observations_array(self, obs):
            self.seen += len(obs)

    class FakeObservatory:
        def __init__(self, nside=None, **kw):
            self.nside = nside
            self.mjd = None
            self.kw = kw

    m = sys.modules[__name__]
    for c in (FakeScheduler, FakeObservatory):
        c.__module__, c.__qualname__ = __name__, c.__name__
        setattr(m, c.__name__, c)


def obs_of(n, seed):
    """The visits of a simulation."""
    import numpy as np
    from rubin_scheduler.scheduler.utils import ObservationArray

    r = random.Random(f"obs {seed}")
    o = ObservationArray(n)
    for i in range(n):
        o["ID"][i] = i
        o["RA"][i] = r.uniform(0, 6)
        o["dec"][i] = r.uniform(-1, 0)
        j = n - 1 - i if seed % 5 == 0 else i  # in order of time or not
        o["mjd"][i] = NIGHT0 + (seed % 7) + (0.98, 0.98, 0.52, 0.4)[seed % 4] + 0.01 * j + (1.0 if j > n / 2 else 0.0)
        o["exptime"][i] = r.choice([15.0, 30.0])
        o["band"][i] = r.choice("ugrizy")
        o["target_name"][i] = f"t{seed}_{i}"
        o["night"][i] = 1
    return np.asarray(o).view(type(o)) if False else o


def rows_of(n, seed):
    o = obs_of(n, seed)
    return [[int(x["ID"]), round(float(x["mjd"]), 9), str(x["band"]), str(x["target_name"])] for x in o]


def rewards_of(which, seed):
    import pandas as pd

    a = pd.DataFrame({"x": [seed * 1.0, 2.0], "name": ["p", f"q{seed}"]}) if which in ("both", "df") else None
    b = pd.Series([1, 2, seed], name="obs") if which in ("both", "obs") else None
    return a, b


def dayobs(mjd):
    from datetime import date, timedelta
    from math import floor

    return (date(1858, 11, 17) + timedelta(days=floor(mjd - 0.5))).isoformat()


def sunsets():
    import numpy as np

    t = np.zeros(400, dtype=[("night", int), ("sunset", float), ("sun_n12_setting", float), ("sunrise", float)])
    i = np.arange(400)
    t["night"] = i
    t["sunset"] = NIGHT0 + i + 0.95 + 0.04 * np.sin(i / 58.0)
    t["sun_n12_setting"] = t["sunset"] + 0.035
    t["sunrise"] = NIGHT0 + 1 + i + 0.45 - 0.04 * np.sin(i / 58.0)
    return t


class FakeAlmanac:
    def __init__(self, *a, **k):
        self.sunsets = sunsets()


RAN = []


def fake_runner(observatory, scheduler, **kw):
    """Stands in for the simulator of the survey."""
    n, seed = scheduler.sim
    scheduler.n += 1000
    f = kw.get("anomalous_overhead_func")
    over = [round(float(f(obs={"slewtime": 5.0 + i, "visittime": 34.0, "exptime": 30.0})), 9) for i in range(3)] if f else None
    RAN.append({"start": kw.get("sim_start_mjd"), "dur": kw.get("sim_duration"), "over": over, "mjd": getattr(observatory, "mjd", None)})
    o = obs_of(n, seed)
    if kw.get("record_rewards"):
        return (observatory, scheduler, o, *rewards_of("both", seed))
    return observatory, scheduler, o


def warm():
    import tempfile

    import pandas as pd

    import rubin_sim.sim_archive.make_snapshot as M
    import rubin_sim.sim_archive.prenight as P
    import rubin_sim.sim_archive.sim_archive as S

    _classes()
    import rubin_scheduler.scheduler as rs
    import rubin_scheduler.site_models as sm

    for m in (S, P, rs):
        if hasattr(m, "sim_runner"):
            m.sim_runner = fake_runner
    for m in (P, S, sm):
        if hasattr(m, "Almanac"):
            m.Almanac = FakeAlmanac
    if hasattr(M, "ModelObservatory"):
        M.ModelObservatory = sys.modules[__name__].FakeObservatory
    with tempfile.TemporaryDirectory() as d:
        a, b = rewards_of("both", 1)
        os.environ.setdefault("USER", "sim")
        S.make_sim_data_dir(obs_of(3, 1), a, b, data_path=d)
        pd.read_hdf(os.path.join(d, "rewards.h5"), "reward_df")


def generate(seed, tier):
    r = random.Random(seed)
    nc = r.choice([1, 1, 2, 3])
    crash = r.choice([0, 0.3, 0.6])
    clients = []
    uid = 0
    for c in range(nc):
        dirs = [f"d{c}_{i}" for i in range(r.choice([1, 1, 2]))]
        md = r.random() < 0.5  # reuses one metadata dictionary
        ops = []

        def fault(op, lo=1, rew=False):
            if r.random() < crash:
                kinds = ["io_crash", "io_crash", "io_torn"] if rew else ["io_crash", "io_crash", "io_torn", "io_torn", "io_eio", "io_enospc", "io_short"]
                kind = r.choice(kinds)
                op["fault"] = {"kind": kind, "at": r.choice([r.randrange(1, 6), r.randrange(1, 20), r.randrange(1, 60)])}
                if kind == "io_enospc":
                    op["fault"]["sticky"] = r.randrange(2)
            return op

        def fill(d):
            nonlocal uid
            uid += 1
            n = r.choice([0, 1, 2, 3, 5, 40])
            rew = r.choice([None, None, None, "both", "both", "df", "obs"])
            op = {"k": "fill", "d": d, "n": n, "u": uid + 100 * c, "rew": rew, "md": r.choice(["own", "none", "shared"]) if md else r.choice(["own", "none"]),
                  "tags": r.choice([[], ["ideal"], ["a b", "nominal"]]), "label": r.choice([None, f"label {uid}"]), "path": r.choice(["str", "path"]),
                  "files": {t: f for t, f in zip(["script", "notebook", "third"], r.sample(IN, r.randrange(0, 4)))},
                  "kw": r.choice([None, None, {"sim_start_mjd": 60800.98, "sim_duration": r.choice([1, 2.0, 0.4, 1.4])}, {"sim_start_mjd": 60801.0}, {"verbose": True, "n": 3}]),
                  "user": r.random() < 0.85}
            if r.random() < 0.1:
                op["d"] = None
            return op, rew is not None

        for _ in range(r.randrange(2, 7)):
            x = r.random()
            if x < 0.42:
                op, rew = fill(r.choice(dirs))
                ops.append(fault(op, rew=rew))
                if op["d"] and r.random() < 0.6:
                    ops.append({"k": "look", "d": op["d"]})
            elif x < 0.55:
                ops.append({"k": "look", "d": r.choice([f"d{q}_{i}" for q in range(nc) for i in range(2)])})
            elif x < 0.63:
                uid += 1
                ops.append({"k": "drive", "n": r.choice([1, 3]), "u": uid + 100 * c, "rew": r.random() < 0.4, "kw": r.choice([{}, {"sim_start_mjd": 60800.98, "sim_duration": 1.0}]), "script": r.random() < 0.5})
            elif x < 0.73:
                uid += 1
                op = {"k": "prenight", "n": r.choice([0, 1, 3, 5]), "u": uid + 100 * c, "ext": r.choice(EXT), "oext": r.choice(EXT), "rew": r.random() < 0.3, "d": r.choice(dirs + [None]),
                      "i": r.randrange(0, 390), "nights": r.choice([1, 1, 2, 5]), "delay": r.choice([0, 0, 30.0, 95.5]), "over": r.choice([None, None, 0, 3, 4]), "tags": r.choice([[], ["ideal", "nominal"]])}
                ops.append(op)
                if op["d"]:
                    ops.append({"k": "look", "d": op["d"]})
            elif x < 0.9:
                uid += 1
                f = f"snap{r.randrange(2)}.pickle" + r.choice(EXT[:2] if seed % 2 else EXT)
                if r.random() < 0.5:
                    op = {"k": "save", "f": f, "u": uid + 100 * c, "pad": r.choice([0, 100, 100000]), "how": r.choice(["save", "cli", "cli-get"])}
                    ops.append(fault(op))
                else:
                    ops.append({"k": "load", "f": f})
                if r.random() < 0.4:
                    ops.append({"k": "load", "f": f})
            else:
                uid += 1
                f = f"obs{r.randrange(2)}.pickle" + r.choice(EXT)
                ops.append(fault({"k": "observatory", "f": f, "ext": r.choice(EXT), "u": uid + 100 * c}))
                ops.append({"k": "load", "f": f})
        for d in dirs:
            op, rew = fill(d)
            ops.append(dict(op, d=d))
            ops.append({"k": "look", "d": d})
            if r.random() < 0.5:
                uid += 1
                ops.append({"k": "visits", "d": d, "u": uid + 100 * c, "f": f"v{c}.pickle" + r.choice(EXT)})
        clients.append({"name": f"p{c}", "ops": ops})
    return {"clients": clients, "sched_seed": seed, "stay": r.choice([0.5, 0.8, 0.95]), "ioyield": nc > 1}


def opener(f):
    return bz2.open if f.endswith(".bz2") else lzma.open if f.endswith(".xz") else gzip.open if f.endswith(".gz") else open


def in_content(f):
    return f"content of {f}\n".encode() * 3


def look(d):
    """What somebody else finds in a simulation directory."""
    import pandas as pd
    import yaml

    y = os.path.join(d, "sim_metadata.yaml")
    try:
        with open(y, "rb") as f:
            text = f.read()
    except FileNotFoundError:
        return {"meta": None}
    try:
        meta = yaml.safe_load(text)
        if not isinstance(meta, dict) or "files" not in meta:
            raise ValueError("incomplete")
    except Exception as e:
        return {"bad": f"metadata cannot be read: {type(e).__name__}", "still": still(y, text)}
    out = {"meta": {k: v for k, v in meta.items() if k not in ("files", "host", "username", "scheduler_version")}, "files": {}, "md5": [], "names": []}
    try:
        for t, x in sorted(meta["files"].items()):
            out["names"].append(x["name"])
            p = os.path.join(d, x["name"])
            with open(p, "rb") as f:
                b = f.read()
            if hashlib.md5(b).hexdigest() != x["md5"]:
                out["md5"].append(t)
            if t == "observations":
                con = sqlite3.connect(f"file:{p}?mode=ro", uri=True)
                out["files"][t] = [[a, round(b, 9), c, e] for a, b, c, e in con.execute("select observationId, observationStartMJD, band, target_name from observations order by rowid")]
                con.close()
            elif t == "rewards":
                with pd.HDFStore(p, "r") as s:
                    keys = sorted(s.keys())
                    out["files"][t] = {k.strip("/"): s[k].to_json() for k in keys}
            elif t == "statistics":
                out["files"][t] = len(b) > 0
            elif t == "observatory":
                with opener(x["name"])(p, "rb") as f:
                    out["files"][t] = pickle.load(f).nside
            elif t == "scheduler":
                with opener(x["name"])(p, "rb") as f:
                    out["files"][t] = pickle.load(f).n
            else:
                out["files"][t] = b.decode()
    except Exception as e:
        return {"bad": f"{t}: {type(e).__name__} {str(e)[:80]}", "u": meta.get("u"), "still": still(y, text)}
    out["still"] = still(y, text)
    return out


def still(y, text):
    try:
        with open(y, "rb") as f:
            return f.read() == text
    except FileNotFoundError:
        return False


def client(base, name):
    def fn(state, op):
        import tempfile
        from pathlib import Path

        import rubin_sim.sim_archive.make_snapshot as M
        import rubin_sim.sim_archive.prenight as P
        import rubin_sim.sim_archive.sim_archive as S

        me = sys.modules[__name__]
        k = op["k"]
        tempfile.tempdir = os.path.join(base, "tmp", name)
        os.environ["USER"] = "sim"
        path = os.path.join(base, op["d"]) if op.get("d") else None
        if k == "fill":
            if path:
                os.makedirs(path, exist_ok=True)
            if not op["user"]:
                del os.environ["USER"]
            a, b = rewards_of(op["rew"], op["u"])
            shared = state.setdefault("md", {"telescope": "simonyi"})
            md = {"own": {"telescope": "auxtel"}, "none": None, "shared": shared}[op["md"]]
            tags = list(op["tags"])
            kw = dict(op["kw"] or {})
            kw["u"] = op["u"]
            files = {t: os.path.join(base, "in", f) for t, f in op["files"].items()}
            o = obs_of(op["n"], op["u"])
            out = S.make_sim_data_dir(o, a, b, files, kw, tags, op["label"], Path(path) if path and op["path"] == "path" else path, md)
            res = {"tags": tags, "md": dict(md) if md else md, "nkw": len(kw), "rows": [[int(x["ID"]), round(float(x["mjd"]), 9), str(x["band"]), str(x["target_name"])] for x in o] == rows_of(op["n"], op["u"])}
            if path is None:
                res["look"] = look(getattr(out, "name", out))
                if hasattr(out, "cleanup"):
                    out.cleanup()
            else:
                res["same"] = os.path.samefile(str(out), path)
            return res
        if k == "look":
            return look(path)
        if k == "drive":
            s = me.FakeScheduler(op["u"])
            s.sim = (op["n"], op["u"])
            s.keep_rewards = op["rew"]
            kw = dict(op["kw"])
            if op["script"]:
                kw["script"] = os.path.join(base, "in", "a/run.py")
            out = S.drive_sim(me.FakeObservatory(), s, label="drv", tags=["x"], **kw)
            where = out[-1].ospath
            return {"look": look(where), "n": len(out), "left": s.n, "rows": len(out[2])}
        if k == "prenight":
            s = me.FakeScheduler(op["u"])
            s.sim = (op["n"], op["u"])
            sf = os.path.join(base, "tmp", f"{name}.sched{op['ext']}")
            of = os.path.join(base, "tmp", f"{name}.obs{op['oext']}")
            M.save_scheduler(s, sf)
            M.make_ideal_model_observatory_cli([sf, of])
            before = set(os.listdir(tempfile.tempdir))
            from datetime import date, timedelta

            d = date(1858, 11, 17) + timedelta(days=NIGHT0 + op["i"])
            args = [sf, of, d.strftime("%Y%m%d"), str(op["nights"]), "--delay", str(op["delay"]), "--label", f"pre {op['u']}", "--telescope", "auxtel"]
            if op["rew"]:
                args.append("--keep_rewards")
            if op["over"] is not None:
                args += ["--anom_overhead_scatter", "20.0", "--anom_overhead_scale", "0.1", "--anom_overhead_seed", str(op["over"])]
            if path:
                os.makedirs(path, exist_ok=True)
                args += ["--results", path]
            if op["tags"]:
                args += ["--tags", *op["tags"]]
            del RAN[:]
            rc = P.run_prenight_sim_cli(args)
            new = sorted(set(os.listdir(tempfile.tempdir)) - before)
            res = {"rc": rc, "ran": RAN[-1] if RAN else None}
            for x in ("start", "dur", "mjd"):
                res["ran"][x] = round(float(res["ran"][x]), 9)
            if path is None:
                full = [x for x in new if os.path.isdir(os.path.join(tempfile.tempdir, x)) and os.listdir(os.path.join(tempfile.tempdir, x))]
                res["new"] = len(full)
                res["look"] = look(os.path.join(tempfile.tempdir, full[0])) if full else None
            return res
        if k == "save":
            f = os.path.join(base, op["f"])
            if op["how"] == "save":
                M.save_scheduler(me.FakeScheduler(op["u"], op["pad"]), f)
            else:
                c = os.path.join(base, "tmp", name, f"config{op['u']}.py")
                make = f"FakeScheduler({op['u']}, {op['pad']})"
                text = f"from {__name__} import FakeScheduler\n" + (f"scheduler = {make}\n" if op["how"] == "cli" else f"def get_scheduler():\n    return 32, {make}\n")
                os.makedirs(os.path.dirname(c), exist_ok=True)
                with open(c, "w") as o:
                    o.write(text)
                M.make_scheduler_snapshot_cli(["--scheduler_fname", f, "--script", c])
            return None
        if k == "load":
            f = os.path.join(base, op["f"])
            try:
                with opener(f)(f, "rb") as i:
                    s = pickle.load(i)
            except FileNotFoundError:
                return None
            except Exception as e:
                return {"bad": type(e).__name__}
            if isinstance(s, me.FakeObservatory):
                return {"nside": s.nside}
            return {"n": s.n, "pad": s.pad == random.Random(s.n).randbytes(len(s.pad))}
        if k == "observatory":
            sf = os.path.join(base, "tmp", f"{name}.s2{op['ext']}")
            s = me.FakeScheduler(op["u"])
            s.nside = op["u"]
            with opener(sf)(sf, "wb") as o:
                pickle.dump(s, o)
            M.make_ideal_model_observatory_cli([sf, os.path.join(base, op["f"])])
            return None
        if k == "visits":
            f = os.path.join(base, op["f"])
            c = os.path.join(base, "tmp", name, f"config{op['u']}.py")
            with open(c, "w") as o:
                o.write(f"from {__name__} import FakeScheduler\nscheduler = FakeScheduler({op['u']})\n")
            M.make_scheduler_snapshot_cli(["--scheduler_fname", f, "--script", c, "--visits", os.path.join(path, "opsim.db")])
            with opener(f)(f, "rb") as i:
                s = pickle.load(i)
            return {"n": s.n, "seen": s.seen}

    return fn


def expect(op):
    """The contents of the directory after a fill, drive or prenight."""
    import pandas as pd  # noqa: F401

    u, k = op["u"], op["k"]
    rew = op["rew"] if k == "fill" else ("both" if op["rew"] else None)
    files = {"observations": rows_of(op["n"], u), "statistics": True}
    if rew:
        a, b = rewards_of(rew, u)
        files["rewards"] = {n: x.to_json() for n, x in (("reward_df", a), ("obs_rewards", b)) if x is not None}
    meta = {}
    kw = None
    if k == "fill":
        for t, f in op["files"].items():
            files[t] = in_content(f).decode()
        meta.update({"own": {"telescope": "auxtel"}, "none": {}, "shared": {"telescope": "simonyi"}}[op["md"]])
        if op["tags"]:
            meta["tags"] = op["tags"]
        if op["label"] is not None:
            meta["label"] = op["label"]
        kw = dict(op["kw"] or {}, u=u)
    elif k == "drive":
        files["scheduler"] = u
        if op["script"]:
            files["script"] = in_content("a/run.py").decode()
        meta.update(tags=["x"], label="drv")
        kw = dict(op["kw"], record_rewards=op["rew"])
    else:
        files.update(scheduler=u, observatory=32)
        meta.update(telescope="auxtel", label=f"pre {u}")
        if op["tags"]:
            meta["tags"] = op["tags"]
    if kw:
        meta["sim_runner_kwargs"] = kw
    dates = {}
    if kw and "sim_start_mjd" in kw:
        import math

        dates["first"] = dayobs(kw["sim_start_mjd"])
        if "sim_duration" in kw:
            dates["last"] = dayobs(kw["sim_start_mjd"] + math.ceil(kw["sim_duration"]) - 1)
    elif op["n"]:
        t = [x[1] for x in files["observations"]]
        dates = {"first": dayobs(min(t)), "last": dayobs(max(t))}
    meta["simulated_dates"] = dates
    return {"files": files, "meta": meta}


def check_look(run, what, got, ops):
    """got is the look at a directory that holds one of the simulations ops."""
    if got.get("bad"):
        return run.violation("incomplete", f"{what}: {got['bad']}")
    if got["md5"]:
        return run.violation("checksum", f"{what}: the files {got['md5']} are not those of the metadata")
    if len(set(got["names"])) != len(got["names"]):
        return run.violation("files-clash", f"{what}: {got['names']}")
    diff = None
    for op in ops:
        e = expect(op)
        if got["files"] == e["files"] and got["meta"] == e["meta"]:
            return None
        d = [f"{t}: {str(got['files'].get(t))[:120]} instead of {str(e['files'].get(t))[:120]}" for t in sorted(set(got["files"]) | set(e["files"])) if got["files"].get(t) != e["files"].get(t)]
        d += [f"{t}: {got['meta'].get(t)} instead of {e['meta'].get(t)}" for t in sorted(set(got["meta"]) | set(e["meta"])) if got["meta"].get(t) != e["meta"].get(t)]
        if diff is None or len(d) <= len(diff):
            diff = d
    run.violation("wrong-simulation", f"{what}: {diff}")


def run(scn, ctx):
    run = core.Run(scn, ctx.base)
    try:
        base = run.dir
        for f in IN:
            p = os.path.join(base, "in", f)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, "wb") as o:
                o.write(in_content(f))
        for c in scn["clients"]:
            os.makedirs(os.path.join(base, "tmp", c["name"]))
            run.add(c["name"], client(base, c["name"]), c["ops"])
        run.go()
        H = run.history
        done = {}  # directory -> the last simulation known to be complete
        tried = {}  # -> those begun afterwards
        ever = {}
        over = {}
        for h in H:
            if h["op"]["k"] in ("fill", "prenight") and h["op"].get("d"):
                ever.setdefault(h["op"]["d"], []).append(h["op"])
        saved = {}
        for h in H:
            if h["op"]["k"] in ("save", "observatory", "visits"):
                saved.setdefault(h["op"]["f"], []).append(h)
        for h in sorted(H, key=lambda h: h["end"]):
            op, c, v = h["op"], h["c"], h.get("v")
            k, what = op["k"], f"{c} {op}"
            if h["s"] == "exc" and not h.get("fired"):
                run.violation("op-failed", f"{what}: {h['e']}: {h['m']} {h['w']}")
            d = op.get("d")
            if k in ("fill", "prenight") and d:
                tried.setdefault(d, []).append(op)
                if h["s"] == "ok":
                    done[d], tried[d] = op, []
            if h["s"] != "ok":
                continue
            if k == "fill":
                if v["tags"] != op["tags"] or v["nkw"] != len(op["kw"] or {}) + 1 or not v["rows"] or v["md"] != {"own": {"telescope": "auxtel"}, "none": None, "shared": {"telescope": "simonyi"}}[op["md"]]:
                    run.violation("arguments-changed", f"{what}: {v}")
                if d is None:
                    check_look(run, what, v["look"], [op])
                elif not v["same"]:
                    run.violation("other-directory", what)
            elif k == "look":
                if d.startswith("d" + c[1:] + "_"):
                    poss = [done[d]] if d in done else []
                    poss += tried.get(d, [])
                    if "bad" not in v and v["meta"] is None:
                        if d in done and not tried[d]:
                            run.violation("metadata-missing", f"{what}: after {done[d]}")
                    else:
                        check_look(run, what, v, poss)
                elif v.get("meta") is not None or v.get("bad"):
                    if v["still"]:
                        check_look(run, what, v, ever.get(d, []))
            elif k == "drive":
                check_look(run, what, v["look"], [op])
                if v["n"] != (6 if op["rew"] else 4) or v["rows"] != op["n"]:
                    run.violation("drive-result", f"{what}: {v['n']} results, {v['rows']} visits")
            elif k == "prenight":
                t = sunsets()
                start = t["sun_n12_setting"][op["i"]] + op["delay"] / 1440.0
                dur = t["sunrise"][op["i"] + op["nights"] - 1] - start
                ran = v["ran"]
                if ran is None or abs(ran["start"] - start) > 1e-6 or abs(ran["dur"] - dur) > 1e-6 or abs(ran["mjd"] - start) > 1e-6:
                    run.violation("wrong-nights", f"{what}: {ran} instead of {start}, {dur}")
                elif op["over"] is None and ran["over"] is not None or op["over"] is not None and (ran["over"] is None or over.setdefault(op["over"], ran["over"]) != ran["over"] or min(ran["over"][i] + 9.0 + i for i in range(3)) < 0):
                    run.violation("overhead", f"{what}: {ran['over']} and {over.get(op['over'])}")
                if v["rc"] != 0 or d is None and v["new"] != 1:
                    run.violation("prenight-result", f"{what}: {v}")
                elif d is None:
                    check_look(run, what, v["look"], [op])
            elif k == "load":
                mine = [x for x in saved.get(op["f"], []) if x["start"] is None or x["start"] <= h["end"]]
                final = [x for x in mine if x["s"] == "ok" and x["end"] < (h["start"] if h["start"] is not None else h["end"])]
                if v is None:
                    if final:
                        run.violation("snapshot-missing", what)
                elif v.get("bad") or v.get("pad") is False:
                    run.violation("snapshot-incomplete", f"{what}: {v}")
                elif "nside" in v:
                    if v["nside"] not in [x["op"]["u"] for x in mine]:
                        run.violation("snapshot-wrong", f"{what}: {v}")
                else:
                    ids = [x["op"]["u"] for x in mine]
                    if final and len(scn["clients"]) == 1:
                        last = max(final, key=lambda x: x["end"])
                        ids = [x["op"]["u"] for x in mine if x["end"] >= last["end"]]
                    if v["n"] not in ids:
                        run.violation("snapshot-wrong", f"{what}: {v}, one of {ids}")
            elif k == "visits":
                if v["n"] != op["u"] or v["seen"] != done[d]["n"]:
                    run.violation("visits-read", f"{what}: {v}, the simulation has {done[d]['n']}")
        return core.result_of(run)
    finally:
        run.cleanup()
