"""The prototype simulation archive under simulation: scenarios, clients, reference (C15, C16)."""

import hashlib
import json
import os
import random
import shutil
import tempfile
import warnings

from . import core

T0 = 1750000000.0 - 1750000000.0 % 86400  # 2025-06-15 00:00 UTC
DAY = 86400.0
MJD0 = 60841  # of T0
NOBS = 4
SRC = {}  # observation table -> {file name: content}, made by the real make_sim_data_dir
NIGHTS = [f"2025-06-{d}" for d in range(12, 21)]


def night_of(mjd):
    d = int(mjd - 0.5) - MJD0 + 15
    return f"2025-06-{d:02d}"


def obs(n):
    """(id, mjd) of the visits of table n: nights 12 to 19 of June, with times near the turns of nights."""
    r = random.Random(1000 + n)
    t = sorted(MJD0 - 3 + k + 0.5 + f for k in range(8) for f in r.sample([0.00001, 0.2, 0.4999, 0.5001, 0.7, 0.99999], r.choice([0, 1, 2, 3])))
    return [(100 * n + i, x) for i, x in enumerate(t)]


def warm():
    os.environ.setdefault("USER", "sim")
    warnings.simplefilter("ignore")
    import pandas as pd
    from lsst.resources import ResourcePath
    from rubin_scheduler.scheduler.utils import ObservationArray

    from rubin_sim.sim_archive import prototype

    d = tempfile.mkdtemp()
    try:
        for n in range(NOBS):
            o = ObservationArray(n=len(obs(n)))
            o["ID"] = [i for i, _ in obs(n)]
            o["mjd"] = [t for _, t in obs(n)]
            o["band"] = "r"
            p = os.path.join(d, str(n))
            os.mkdir(p)
            prototype.make_sim_archive_dir(o, tags=["a"], label="l", data_path=p, opsim_metadata={"telescope": "simonyi"})
            SRC[n] = {}
            for f in sorted(os.listdir(p)):
                with open(os.path.join(p, f), "rb") as i:
                    SRC[n][f] = i.read()
        # warm the rest
        base = os.path.join(d, "a")
        prototype.transfer_archive_dir(p, base)
        prototype.read_archived_sim_metadata(base, num_nights=2)
        f = os.path.join(d, "x.h5")
        df = pd.DataFrame([{"a": "b", "c": 1.0}]).set_index("a")
        df.to_hdf(f, key="x", format="table")
        pd.read_hdf(f, "x")
        ResourcePath(d).join("x.y").write(b"1")
    finally:
        shutil.rmtree(d)


# -- scenarios -----------------------------------------------------------------------------
def generate(seed, focus):
    r = random.Random(seed)
    ncl = r.choice([1, 2, 2, 3]) if focus == "write" else r.choice([1, 1, 2])
    nsim = 0
    p = r.choice([0.0, 0.3, 0.6]) if focus == "write" else r.choice([0.0, 0.0, 0.3])
    clients = []
    t0 = T0 + r.choice([r.randrange(86400), 43200, 86400 - r.choice([0.05, 0.5, 5.0]), 86400 - 3 * r.random()])
    for c in range(ncl):
        ops = []
        for _ in range(r.randrange(3, 9) if focus == "write" else r.randrange(6, 16)):
            x = r.random()
            if x < (0.45 if focus == "write" else 0.4):
                op = {"k": "archive", "n": nsim, "sim": sim(r, nsim)}
                nsim += 1
            elif x < (0.6 if focus == "write" else 0.5):
                op = {"k": "compile", "append": r.random() < 0.6, "nights": r.choice([5, 9])}
            elif x < (0.75 if focus == "write" else 0.55):
                op = {"k": "list", "nights": r.choice([1, 2, 5]), "comp": r.random() < 0.6, "verify": r.random() < 0.3, "back": r.choice([None, None, None, 0, 1])}
            elif x < (0.85 if focus == "write" else 0.6):
                op = {"k": "check", "i": r.randrange(4)}
            elif x < (0.92 if focus == "write" else 0.92):
                a = r.choice([None, None] + NIGHTS[2:7])
                b = None if a is None or r.random() < 0.5 else r.choice([n for n in NIGHTS if n >= a])
                op = {"k": r.choice(["find", "find", "fetch"]), "first": a, "last": b, "tags": r.choice([None, None, ["ideal"], ["x", "nominal"], []]),
                      "tel": r.choice([None, None, "simonyi", "Simonyi", "auxtel"]), "age": r.choice([None, 1, 2, 3, 6]), "comp": r.random() < 0.5}
                if op["k"] == "fetch":
                    op["kw"] = r.choice([None, None, "none", "iso", "cols"])
            else:
                op = {"k": "wait", "t": r.choice([1.0, 3600.0, 43200.0, DAY, 2 * DAY])}
            if op["k"] != "wait" and r.random() < p:
                op["fault"] = fault(r)
            ops.append(op)
        clients.append({"name": f"c{c}", "ops": ops})
    # what interrupted additions left behind: directories without metadata
    pre = []
    for k in range(4):
        if r.random() < 0.45:
            pre += [[date_of(t0 + k * DAY), i] for i in r.choice([["3"], ["8"], ["9"], ["9", "10"], ["2", "7", "98"], ["99"], ["1", "tmp"], ["5", "5a"]])]
    # the HDF5 library does not report every error in writing its (temporary) file
    quiet = any(o["k"] == "compile" and o.get("fault", {}).get("kind") in ("io_eio", "io_enospc") for c in clients for o in c["ops"])
    return {"clients": clients, "sched_seed": seed, "stay": r.choice([0.1, 0.4, 0.7, 0.95]), "t0": t0, "ioyield": r.random() < (0.75 if focus == "write" else 0.3),
            "listing": r.choice([None, seed]), "pre": pre, "tmpin": r.random() < 0.3 and not quiet}


def sim(r, n):
    a = r.randrange(0, 7)
    s = {"obs": r.randrange(NOBS), "first": NIGHTS[a], "last": NIGHTS[min(8, a + r.randrange(0, 5))]}
    s["tags"] = r.choice([["ideal", "nominal"]] * 3 + [["ideal"], ["nominal", "x", "ideal"], None])
    s["tel"] = r.choice(["simonyi"] * 4 + ["auxtel", None])
    s["label"] = r.random() < 0.8
    if r.random() < 0.6:
        s["kw"] = {"record_rewards": r.random() < 0.5, "sim_duration": float(r.randrange(1, 4)), "sim_start_mjd": MJD0 + r.random()}
        if r.random() < 0.3:
            s["kw"]["n_visit_limit"] = r.randrange(5)
    return s


def fault(r):
    k = r.choice(["io_crash"] * 4 + ["io_torn", "io_torn", "io_eio", "io_enospc", "io_short"])
    f = {"kind": k, "at": r.choice([r.randrange(1, 6), r.randrange(1, 15), r.randrange(1, 60)])}
    if k == "io_enospc" and r.random() < 0.5:
        f["sticky"] = 1
    return f


def metadata(op):
    """(sim_metadata as written in the source directory, files) of an archive operation."""
    import yaml

    s = op["sim"]
    src = SRC[s["obs"]]
    m = yaml.safe_load(src["sim_metadata.yaml"])
    files = {f: c for f, c in src.items() if f != "sim_metadata.yaml"}
    m.pop("label", None)
    m.pop("tags", None)
    m.pop("telescope", None)
    m["simulated_dates"] = {"first": s["first"], "last": s["last"]}
    if s["tags"]:
        m["tags"] = list(s["tags"])
    if s["tel"]:
        m["telescope"] = s["tel"]
    if s["label"]:
        m["label"] = f"sim number {op['n']}"
    if "kw" in s:
        m["sim_runner_kwargs"] = dict(s["kw"])
    text = (f"# {op['n']}\n" * (1 + op["n"] * 40 % 900)).encode()
    name = ["make.py", f"make_{op['n']}.py"][op["n"] % 2]
    files[name] = text
    m["files"]["script"] = {"name": name, "md5": hashlib.md5(text).hexdigest()}
    files["sim_metadata.yaml"] = yaml.dump(m, indent=4).encode()
    return m, files


def base(d):
    return "file://" + os.path.join(d, "arch") + "/"


def comp(d):
    return "file://" + os.path.join(d, "comp", "cache.h5")


# -- inside a simulated process --------------------------------------------------------------
def client(d, scn):
    def fn(state, op):
        warnings.simplefilter("ignore")
        import logging

        logging.disable(logging.CRITICAL)
        if op["k"] == "wait":
            core.SIM.sleep(op["t"])
            return None
        return perform(state, d, op)

    return fn


def scramble(seed):
    """Directory listings come in an order of the simulator's choice."""
    r = random.Random(seed)
    walk = os.walk

    def shuffled(top, topdown=True, onerror=None, followlinks=False):
        for root, dirs, files in walk(top, topdown, onerror, followlinks):
            for x in (dirs, files):
                x.sort()
                if seed is not None:
                    r.shuffle(x)
            yield root, dirs, files

    os.walk = shuffled


def perform(state, d, op):
    from astropy.time import Time

    from rubin_sim.sim_archive import prototype as pr

    k = op["k"]
    if k == "archive":
        rp = pr.transfer_archive_dir(os.path.join(d, "src", str(op["n"])), base(d))
        state.setdefault("mine", []).append(rp.geturl())
        return rp.geturl()
    if k == "compile":
        pr.compile_sim_metadata(base(d), comp(d), num_nights=op["nights"], append=op["append"])
        return None
    if k == "list":
        kw = {}
        if op["comp"]:
            kw = {"compilation_resource": comp(d), "verify_compilation": op["verify"]}
        if op["back"] is not None:
            kw["latest"] = Time(Time.now().mjd - op["back"], format="mjd").iso[:10]
        return plain(pr.read_archived_sim_metadata(base(d), num_nights=op["nights"], **kw))
    if k == "check":
        m = state.get("mine")
        if not m:
            return None
        u = m[op["i"] % len(m)]
        return [u, pr.check_opsim_archive_resource(u)]
    which = {"archive_uri": base(d), "compilation_uri": comp(d) if op["comp"] else "file://" + os.path.join(d, "none.h5")}
    for a, b in (("tags", "tags"), ("tel", "telescope"), ("age", "max_simulation_age")):
        if op[a] is not None:
            which[b] = tuple(op[a]) if a == "tags" else op[a]
    if k == "find":
        s = pr.find_latest_prenight_sim_for_nights(op["first"], op["last"], **which)
        if s is None:
            return None
        s["opsim_rp"] = s["opsim_rp"].geturl()
        return plain(s)
    from rubin_sim.maf.stackers import DayObsISOStacker

    kw, mine = {}, []
    if op["kw"] == "iso":
        mine = [DayObsISOStacker()]
        kw = {"get_sim_data_kwargs": {"stackers": mine}}
    elif op["kw"] == "none":
        kw = {"get_sim_data_kwargs": {"stackers": mine}}
    elif op["kw"] == "cols":
        kw = {"get_sim_data_kwargs": {"dbcols": ["observationId", "observationStartMJD"]}}
    n = len(mine)
    v = pr.fetch_sim_for_nights(op["first"], op["last"], which_sim=which, **kw)
    if len(mine) != n or (op["kw"] == "cols" and list(kw["get_sim_data_kwargs"]) != ["dbcols"]):
        return ["the arguments of the caller were changed"]
    if v is None:
        return None
    if ("day_obs_iso8601" in v.columns) != (op["kw"] == "iso"):
        return ["columns", sorted(v.columns)]
    return [int(i) for i in v["observationId"]]


def plain(x):
    return json.loads(json.dumps(x, default=lambda o: o.item() if hasattr(o, "item") else str(o)))


def damaged(d, u, name):
    """What the check says of a copy of an entry with one byte changed."""
    from rubin_sim.sim_archive import prototype as pr

    q = os.path.join(d, "damaged")
    shutil.copytree(u[len("file://") :], q)
    p = os.path.join(q, name)
    with open(p, "rb") as f:
        x = bytearray(f.read() or b" ")
    x[-1] ^= 1
    with open(p, "wb") as f:
        f.write(x)
    warnings.simplefilter("ignore")
    return pr.check_opsim_archive_resource("file://" + q + "/")


# -- judging -----------------------------------------------------------------------------------
def date_of(t):
    import datetime as dt

    return dt.datetime.fromtimestamp(t, dt.timezone.utc).date().isoformat()


def day_before(t, n):
    return date_of(t - n * DAY)


def entries(d):
    """Every directory of the archive with its files."""
    out = {}
    a = os.path.join(d, "arch")
    if not os.path.isdir(a):
        return out
    for date in sorted(os.listdir(a)):
        p = os.path.join(a, date)
        if not os.path.isdir(p):
            continue
        for idx in sorted(os.listdir(p)):
            q = os.path.join(p, idx)
            if os.path.isdir(q):
                out[(date, idx)] = {f: open(os.path.join(q, f), "rb").read() for f in sorted(os.listdir(q))}
    return out


def body(run, scn, want):
    import yaml

    d = run.dir
    for s in ("src", "comp", "tmp"):
        os.mkdir(os.path.join(d, s))
    for date, i in scn.get("pre", []):
        os.makedirs(os.path.join(d, "arch", date, i), exist_ok=True)
    meta, files = {}, {}
    for c in scn["clients"]:
        for op in c["ops"]:
            if op["k"] == "archive":
                n = op["n"]
                meta[n], files[n] = metadata(op)
                p = os.path.join(d, "src", str(n))
                os.mkdir(p)
                for f, x in files[n].items():
                    with open(os.path.join(p, f), "wb") as o:
                        o.write(x)
    tmp = os.path.join(d, "tmp") if scn.get("tmpin") else tempfile.mkdtemp(prefix="tmp", dir=os.path.dirname(d))

    def setup(state):
        tempfile.tempdir = tmp
        scramble(scn["listing"])

    done = {}

    def ev(p, what):
        """Every listed entry is complete; those of finished operations never change."""
        if run.violations:
            return
        now = entries(d)
        for h in run.history:
            if h["op"]["k"] == "archive" and h["s"] == "ok" and h["v"] not in done:
                done[h["v"]] = h["op"]["n"]
        for (date, idx), have in now.items():
            url = base(d) + f"{date}/{idx}/"
            if "sim_metadata.yaml" not in have:
                if url in done:
                    run.violation("lost", f"the entry {date}/{idx} of simulation {done[url]} has no metadata any more")
                continue
            ns = [n for n in files if files[n]["sim_metadata.yaml"] == have["sim_metadata.yaml"]]
            if url in done:
                ns = [done[url]]
            bad = None
            for n in ns:
                bad = [f for f, x in files[n].items() if have.get(f) != x]
                if not bad:
                    break
            else:
                if not ns:
                    writing = any(h["op"]["k"] == "archive" and h["s"] is None for h in run.history)
                    if writing:
                        continue  # being written: judged by what readers see
                    run.violation("torn-entry", f"entry {date}/{idx} has metadata that is of no archived simulation ({len(have['sim_metadata.yaml'])} bytes)")
                else:
                    run.violation("entry-content", f"entry {date}/{idx} of simulation {ns} has wrong content in {bad} after {what} of {p and p.name}")
                return

    run.on_event = ev
    for c in scn["clients"]:
        run.add(c["name"], client(d, scn), c["ops"], setup=setup)
    run.go()
    if tmp != os.path.join(d, "tmp"):
        shutil.rmtree(tmp, ignore_errors=True)
    if run.violations:
        return
    ev(None, "end")
    if run.violations:
        return
    hist = run.history
    # entries of the archive, with the operation that made each
    E = {}
    for h in hist:
        if h["op"]["k"] != "archive":
            continue
        if h["s"] == "ok":
            if h["v"] in E:
                run.violation("same-entry", f"{h['c']}#{h['i']} and {E[h['v']]['h']['c']}#{E[h['v']]['h']['i']} both archived to {h['v']}")
                return
            parts = h["v"].rstrip("/").split("/")
            if not h["v"].startswith(base(d)) or len(parts) < 2 or not parts[-1].isdigit() or parts[-2] not in {date_of(h["t0"]), date_of(h["t1"])}:
                run.violation("entry-place", f"{h['c']}#{h['i']} returned {h['v']} at {date_of(h['t0'])}")
                return
            E[h["v"]] = {"n": h["op"]["n"], "h": h, "date": parts[-2], "idx": int(parts[-1])}
    for (date, idx), have in entries(d).items():
        u = base(d) + f"{date}/{idx}/"
        if u in E or "sim_metadata.yaml" not in have:
            continue
        ns = [n for n in files if files[n]["sim_metadata.yaml"] == have["sim_metadata.yaml"]]
        hs = [h for h in hist if h["op"]["k"] == "archive" and h["op"]["n"] in ns and h["s"] != "ok"]
        if not hs:
            run.violation("alien-entry", f"entry {date}/{idx} is of no unfinished archiving")
            return
        E[u] = {"n": hs[0]["op"]["n"], "h": hs[0], "date": date, "idx": int(idx), "maybe": True}
    for e in E.values():
        for date, i in scn.get("pre", []):
            if date == e["date"] and i.isdigit() and int(i) >= e["idx"]:
                run.violation("index-order", f"simulation {e['n']} was archived as {e['date']}/{e['idx']}, although there was {i} already")
                return
        for o in E.values():
            if o is not e and not o.get("maybe") and o["date"] == e["date"] and not e.get("maybe") and o["h"]["end"] <= e["h"]["start"] and o["idx"] >= e["idx"]:
                run.violation("index-order", f"simulation {e['n']} was archived after {o['n']}, with index {e['idx']} after {o['idx']} on {e['date']}")
                return
    if "write" in want and E:
        u = min(E)
        n = E[u]["n"]
        names = sorted(f for f in files[n] if f != "sim_metadata.yaml")
        o = run.observe(damaged, d, u, names[scn["sched_seed"] % len(names)])
        exp = {f: f != names[scn["sched_seed"] % len(names)] for f in names}
        if o[0] != "ok" or o[1] != exp:
            run.violation("check", f"checking a damaged copy of {u} gave {o[1:]} instead of {exp}")
            return
    M = {}
    for u, e in E.items():
        m = dict(meta[e["n"]])
        lab = f"{e['date']}/{e['idx']}"
        if "label" in m:
            m["label"] = f"{lab} {m['label']}"
        else:
            m["label"] = f"{lab} of {m['simulated_dates']['first']}" + (f" through {m['simulated_dates']['last']}" if m["simulated_dates"]["last"] != m["simulated_dates"]["first"] else "") + f" with {m['scheduler_version']}"
        M[u] = plain(m)
    comps = [h for h in hist if h["op"]["k"] == "compile"]

    def sees(h, earliest, latest, compiled):
        """(certain, possible) entries that a reading during h covers, for dates in [earliest, latest] at the least/most."""
        sure, may = set(), set()
        for u, e in E.items():
            if h["end"] is not None and e["h"]["start"] > h["end"]:
                continue
            if not earliest[0] <= e["date"] <= latest[1]:
                continue
            may.add(u)
            if e.get("maybe") and e["h"]["s"] is None:
                continue
            if e["h"]["end"] is None or e["h"]["end"] > h["start"] or not earliest[1] <= e["date"] <= latest[0]:
                continue
            if compiled and any((c["start"] < e["h"]["end"] or e["date"] < day_before(c["t0"], c["op"]["nights"] - 2)) and c["start"] < h["end"]
                                and any(o["date"] > e["date"] and (c["end"] is None or o["h"]["start"] < c["end"]) for o in E.values()) for c in comps):
                continue
            sure.add(u)
        return sure, may

    for h in hist:
        op, k = h["op"], h["op"]["k"]
        if k == "wait" or h["s"] == "crash":
            continue
        where = f"{h['c']}#{h['i']} { {a: b for a, b in op.items() if a not in ('fault', 'sim')} }"
        got = f"raised {h['e']}: {h['m']} ({h['w']})" if h["s"] == "exc" else f"returned {json.dumps(h['v'])[:600]}"
        if h["s"] == "exc" and h.get("fired"):
            continue
        if k in ("archive", "compile", "check", "list") and "write" in want and h["s"] == "exc":
            run.violation(f"{k}-failed", f"{where} {got}")
            return
        if k == "check" and "write" in want and h["v"] is not None:
            u, res = h["v"]
            if res != {f: True for f in files[E[u]["n"]] if f != "sim_metadata.yaml"}:
                run.violation("check", f"{where} {got}")
                return
        if h["s"] == "exc" and k not in ("find", "fetch"):
            continue
        if k == "list" and "write" in want:
            back = op["back"] or 0
            late = (day_before(h["t0"], back), day_before(h["t1"], back))
            early = (day_before(h["t0"], back + op["nights"] - 1), day_before(h["t1"], back + op["nights"] - 1))
            sure, may = sees(h, early, late, op["comp"] and not op["verify"])
            have = h["v"]
            lost = sorted(sure - set(have))
            extra = sorted(set(have) - may)
            wrong = sorted(u for u in have if u in M and have[u] != M[u])
            if lost or extra or wrong:
                show = [f"{u}: {have[u]} instead of {M[u]}" for u in wrong[:1]]
                run.violation("listing", f"{where} misses {lost}, has extra {extra}, has wrong {show}")
                return
        if k in ("find", "fetch") and "read" in want:
            age = 2 if op["age"] is None else op["age"]
            tags = ["ideal", "nominal"] if op["tags"] is None else op["tags"]
            tel = (op["tel"] or "simonyi").lower()
            ok = False
            alt = []
            for now in (h["t0"], h["t1"]):
                first = op["first"] or date_of(now - DAY / 2)
                last = op["last"] or first
                sure, may = sees(h, (day_before(h["t0"], age - 1), day_before(h["t1"], age - 1)), (date_of(h["t0"]), date_of(h["t1"])), op["comp"])

                def fits(u):
                    m = M[u]
                    return m["simulated_dates"]["first"] <= first and m["simulated_dates"]["last"] >= last and m.get("telescope", tel).lower() == tel and set(tags) <= set(m.get("tags", []))

                def rank(u):
                    return (E[u]["date"], E[u]["idx"])

                best = max((u for u in sure if fits(u)), key=rank, default=None)
                opts = [u for u in may if fits(u) and (best is None or rank(u) >= rank(best))]
                if best is None:
                    opts.append(None)
                for u in opts:
                    if u is None:
                        ok |= h["s"] == "ok" and h["v"] is None
                        alt.append(None)
                    elif k == "find":
                        exp = dict(M[u], uri=u, exec_date=E[u]["date"], date_index=E[u]["idx"], opsim_rp=u + "opsim.db")
                        ok |= h["s"] == "ok" and h["v"] == exp
                        alt.append(exp)
                    else:
                        exp = [i for i, t in obs(scn_obs(scn, E[u]["n"])) if first <= night_of(t) <= last]
                        ok |= h["s"] == "ok" and h["v"] == exp
                        alt.append([u, exp])
            if not ok:
                run.violation(k, f"{where} {got}; expected one of {json.dumps(alt)[:1000]}")
                return


def scn_obs(scn, n):
    for c in scn["clients"]:
        for op in c["ops"]:
            if op["k"] == "archive" and op["n"] == n:
                return op["sim"]["obs"]


def run(scn, ctx, want):
    r = core.Run(scn, ctx.base)
    try:
        body(r, scn, want)
        return core.result_of(r)
    finally:
        r.cleanup()
