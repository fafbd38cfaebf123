"""C08: a downloaded simulation database is complete or absent."""

import hashlib
import json
import os
import random
import warnings

from .. import core, netseam

PROPERTY = "C08"
LEVEL = "exploration"
RUNS = {"quick": 800, "thorough": 30000}
WALL = {"quick": 240, "thorough": 1800}
REAL = ["rubin_sim.maf.run_comparison.download_runs, get_runs, get_family_runs", "urllib.request and http.client", "pandas", "the file system"]
STUB = ["the TCP connection and the HTTP server behind it", "clock and sleeping (simulated)", "process scheduling"]
ASSUME = ["the server announces the length of a file or sends it chunked", "a crash ends the process, not the machine"]
RULE = "1-3 downloading processes sharing a destination, sources that are updated; connections refused, cut, reset or stalled, server errors, full disk, short writes, I/O errors, crash at any I/O call or segment."

SIZES = [0, 10, 4095, 8192, 9000, 30000, 70000]


def warm():
    netseam.install()
    import pandas  # noqa: F401

    from rubin_sim.maf.run_comparison import archive  # noqa: F401


def gen_fault(r, p):
    if r.random() > p:
        return None
    kind = r.choice(["net_refuse", "net_cut", "net_cut", "net_reset", "net_stall", "http_503", "crash", "crash", "io_crash", "io_torn", "io_eio", "io_enospc", "io_short"])
    f = {"kind": kind, "at": r.randrange(1, 12)}
    if kind == "net_refuse":
        f.update(on=["connect"], at=r.choice([1, 1, 2, 3]))
    elif kind == "http_503":
        f.update(on=["request"], at=r.choice([1, 1, 2, 3]))
    elif kind.startswith("net"):
        f.update(on=["net", "request"], at=r.choice([r.randrange(1, 8), r.randrange(1, 40)]))
    elif kind == "crash":
        f["at"] = r.choice([r.randrange(1, 9), r.randrange(1, 40)])
    return f


def generate(seed, tier):
    r = random.Random(seed)
    n = r.choice([1, 2, 3, 4])
    runs = []
    for i in range(n):
        runs.append({"name": f"run_v{i}.{r.randrange(3)}_10yrs", "path": r.choice(["", "base/", "fam/deep/"]) + f"r{i}.db",
                     "size": r.choice(SIZES), "mode": r.choice(["length", "length", "chunked"])})
    clients = []
    p = r.choice([0.2, 0.5, 0.8])
    for c in range(r.choice([1, 1, 2, 3])):
        ops = []
        for _ in range(r.randrange(1, 5)):
            pick = r.sample(range(n), r.randrange(1, n + 1))
            op = {"k": "get", "runs": pick, "as": r.choice(["list", "frame", "name", "url"]), "clobber": r.random() < 0.35}
            if op["as"] == "name":
                op["runs"] = pick[:1]
            f = gen_fault(r, p)
            if f:
                op["fault"] = f
            ops.append(op)
        clients.append({"name": f"p{c}", "ops": ops})
    if r.random() < 0.5:
        clients.append({"name": "pub", "ops": [{"k": "publish", "run": r.randrange(n)} for _ in range(r.randrange(1, 4))]})
    if r.random() < 0.6:
        clients.append({"name": "look", "ops": [{"k": "look"} for _ in range(r.randrange(2, 9))]})
    return {"clients": clients, "runs": runs, "sched_seed": seed, "stay": r.choice([0.1, 0.4, 0.7, 0.9]), "ioyield": r.random() < 0.4,
            "pre": [i for i in range(n) if r.random() < 0.2]}


def body(scn, i, ver):
    r = random.Random(f"{scn['sched_seed']}/{i}/{ver}")
    size = scn["runs"][i]["size"]
    if ver:
        size = max(0, size + r.choice([-7, 0, 0, 5000]))
    return r.randbytes(size)


def version(base, i):
    with open(os.path.join(base, "pub", str(i))) as f:
        return int(f.read())


def families(scn):
    fam = {}
    rs = scn["runs"]
    for k in ("a", "b"):
        mine = [i for i in range(len(rs)) if k == "a" or i % 2]
        if mine:
            fam[k] = {"run": [rs[i]["name"] for i in mine], "brief": ["text"] * len(mine), "filepath": [rs[i]["path"] for i in mine],
                      "url": [f"http://data.sim/{i}" for i in mine], "version": 3.4, "description": "d"}
    return fam


def serve(scn, base):
    def server(path):
        name = path.strip("/")
        if name == "runs.json":
            return 200, json.dumps(families(scn)).encode(), "length"
        i = int(name)
        return 200, body(scn, i, version(base, i)), scn["runs"][i]["mode"]

    return server


def client(scn, base):
    def fn(state, op):
        return do(scn, base, op)

    return fn


def do(scn, base, op):
    from rubin_sim.maf.run_comparison import archive

    if op["k"] == "publish":
        v = version(base, op["run"])
        p = os.path.join(base, "pub", f"{op['run']}")
        with open(p + ".new", "w") as f:
            f.write(str(v + 1))
        os.rename(p + ".new", p)
        return v + 1
    if op["k"] == "look":
        return state_of(scn, base)
    dest = os.path.join(base, "dest")
    src = os.path.join(base, "runs.json")
    names = [scn["runs"][i]["name"] for i in op["runs"]]
    kw = {"dest_dir": dest, "clobber": op["clobber"], "runs_source": src}
    if op["as"] == "frame":
        runs = archive.get_runs(src).loc[names, :]
        kw.pop("runs_source")
    elif op["as"] == "name":
        runs = names[0]
    else:
        runs = names
        if op["as"] == "url":
            kw["runs_source"] = "http://data.sim/runs.json"
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        out = archive.download_runs(runs, **kw)
    got = {str(k): str(v) for k, v in out.items()}
    if got != {n: os.path.join(dest, scn["runs"][i]["path"]) for n, i in zip(names, op["runs"])}:
        return {"wrong": got}
    return {"state": state_of(scn, base)}


def state_of(scn, base):
    out = {}
    for i, rn in enumerate(scn["runs"]):
        try:
            with open(os.path.join(base, "dest", rn["path"]), "rb") as f:
                out[str(i)] = hashlib.sha256(f.read()).hexdigest()
        except FileNotFoundError:
            pass
    return out


def run(scn, ctx):
    run = core.Run(scn, ctx.base)
    try:
        base = run.dir
        for d in ("dest", "pub"):
            os.makedirs(os.path.join(base, d))
        with open(os.path.join(base, "runs.json"), "w") as f:
            json.dump(families(scn), f)
        nver = 1 + sum(1 for c in scn["clients"] for o in c["ops"] if o["k"] == "publish")
        vers = {}
        for i, rn in enumerate(scn["runs"]):
            with open(os.path.join(base, "pub", str(i)), "w") as f:
                f.write("0")
            vers[str(i)] = {hashlib.sha256(body(scn, i, v)).hexdigest(): v for v in range(nver)}
            if i in scn["pre"]:
                p = os.path.join(base, "dest", rn["path"])
                os.makedirs(os.path.dirname(p), exist_ok=True)
                with open(p, "wb") as f:
                    f.write(b"own version")
                vers[str(i)][hashlib.sha256(b"own version").hexdigest()] = -1
        netseam.SERVER = serve(scn, base)
        for c in scn["clients"]:
            run.add(c["name"], client(scn, base), c["ops"], None)

        def state(what, s):
            for i, h in s.items():
                if h not in vers[i]:
                    p = os.path.join(base, "dest", scn["runs"][int(i)]["path"])
                    n = os.path.getsize(p) if os.path.exists(p) else None
                    run.violation("torn", f"{what}: the file of {scn['runs'][int(i)]['name']} is no complete version (now {n} bytes)")
                    return

        run.on_event = lambda p, what: state(f"after {what} of {p.name}", state_of(scn, base))
        run.go()
        run.on_event = None
        check(run, scn, base, vers, state)
        return core.result_of(run)
    finally:
        run.cleanup()


def check(run, scn, base, vers, state):
    hist = run.history
    pubs = {}  # run -> [(end of publication, version)]
    for h in hist:
        if h["op"]["k"] == "publish" and h["s"] == "ok":
            pubs.setdefault(str(h["op"]["run"]), []).append((h["start"], h["end"], h["v"]))
    gets = [h for h in hist if h["op"]["k"] == "get"]
    last = {str(i): -1 for i in scn["pre"]}
    for h in hist:
        what = f"{h['c']} {h['op']}"
        if h["op"]["k"] == "look" and h["s"] == "ok":
            state(what, h["v"])
        if h["op"]["k"] != "get":
            continue
        f = h["op"].get("fault")
        if h["s"] == "exc" and not f:
            run.violation("op-failed", f"{what}: {h['e']}: {h['m']} {h['w']}")
        if h["s"] == "exc" and f and f["kind"] == "crash":
            run.violation("op-failed", f"{what}: {h['e']}: {h['m']} {h['w']}")
        if h["s"] != "ok":
            continue
        if "wrong" in h["v"]:
            run.violation("wrong-result", f"{what}: returned {h['v']}")
            continue
        s = h["v"]["state"]
        state(what, s)
        for i in h["op"]["runs"]:
            i = str(i)
            if i not in s:
                run.violation("missing", f"{what}: returned, but there is no file for run {i}")
                continue
            if s[i] not in vers[i]:
                continue
            # overwriting: some version that was current during the call (or brought by a concurrent one)
            if h["op"]["clobber"]:
                v = vers[i][s[i]]
                lo = max([p[2] for p in pubs.get(i, []) if p[1] <= h["start"]] + [0])
                others = [g for g in gets if g is not h and int(i) in g["op"]["runs"] and g["op"]["clobber"]
                          and g["start"] <= h["end"] and g["end"] >= h["start"]]
                if v < lo and not others:
                    run.violation("stale", f"{what}: overwriting left version {v}, version {lo} was current before")
    # untouched unless overwriting was requested
    for i in scn["pre"]:
        if not any(i in g["op"]["runs"] and g["op"]["clobber"] for g in gets):
            with open(os.path.join(base, "dest", scn["runs"][i]["path"]), "rb") as f:
                if f.read() != b"own version":
                    run.violation("overwritten", f"the existing file of run {i} was replaced without being asked to")
    state("finally", state_of(scn, base))
    # a later undisturbed call ends with everything there
    before = state_of(scn, base)
    for op in ({"k": "get", "runs": list(range(len(scn["runs"]))), "as": "list", "clobber": False},
               {"k": "get", "runs": list(range(len(scn["runs"]))), "as": "frame", "clobber": True}):
        r = run.observe(do, scn, base, op)
        if r[0] != "ok":
            run.violation("op-failed", f"undisturbed {op}: {r[1:]}")
            return
        if "wrong" in r[1]:
            run.violation("wrong-result", f"undisturbed {op}: returned {r[1]}")
            return
        s = r[1]["state"]
        state(f"undisturbed {op}", s)
        for i in range(len(scn["runs"])):
            if str(i) not in s:
                run.violation("missing", f"undisturbed {op}: no file for run {i}")
            elif op["clobber"] and vers[str(i)].get(s[str(i)]) != version(base, i) and s[str(i)] != hashlib.sha256(body(scn, i, version(base, i))).hexdigest():
                run.violation("stale", f"undisturbed {op}: run {i} is not the current version")
            elif not op["clobber"] and str(i) in before and s[str(i)] != before[str(i)]:
                run.violation("overwritten", f"undisturbed {op}: run {i} was replaced")
