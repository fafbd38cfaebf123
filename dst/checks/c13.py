"""C13: archived files match their registered hashes and read back unchanged."""

import hashlib
import os
import random
import shutil
import sqlite3
import tempfile
import uuid as uuidlib
import warnings

import numpy as np

from .. import core, pg, vseq, vseqgen
from . import c10

PROPERTY = "C13"
LEVEL = "exploration"
RUNS = {"quick": 500, "thorough": 16000}
WALL = {"quick": 240, "thorough": 1800}
REAL = ["rubin_sim.sim_archive.vseqarchive (add_file, get_visits, archive_file, get_file)", "rubin_sim.sim_archive.vseqmetadata, util",
        "lsst.resources on a local directory", "HDF5, pandas, sqlite3, psycopg2, SQLAlchemy", "PostgreSQL 16 server (one per worker)"]
STUB = ["clocks, UUID generation and process scheduling (simulated)",
        "faults: kill at any statement, commit or I/O call, torn and short writes, I/O errors, full disk, lost sessions, statement errors, server crash"]
ASSUME = ["READ COMMITTED PostgreSQL 16 as installed", "a file that the store holds is changed only through the archive",
          "HDF5 reports failures to write its own temporary file", "the store refuses to create an object that exists when asked to (as a file system does)"]
RULE = "1-3 clients add, replace, refuse and read files of a few types, names and contents of 1-3 sequences; reference: one register per sequence and type, in which an interrupted addition happened entirely or not at all; every registered object is read after every event."

global_init, worker_init, global_done = pg.global_init, pg.worker_init, pg.global_done
TYPES = ["rewards", "stats"]
NAMES = ["out.h5", "visits.h5", "rewards.txt", "o u%t.x"]
NVIS = 8
H5 = {}
DBS = {}


def content(n):
    r = random.Random(n)
    return r.randbytes([0, 3, 40, 5000, 9000, 200000][n % 6] if n % 7 else 100)


def warm():
    vseq.warm()
    import pandas as pd
    from lsst.resources import ResourcePath

    from rubin_sim.maf.stackers import BaseStacker
    from rubin_sim.sim_archive import vseqarchive  # noqa: F401

    global SimStacker

    class SimStacker(BaseStacker):
        cols_added = ["simdouble"]

        def __init__(self):
            self.cols_req = ["s_ra"]

        def _run(self, sim_data, cols_present=False):
            # depends on all the visits it is given
            sim_data["simdouble"] = sim_data["s_ra"] * 2 + 1000 * len(sim_data) + np.arange(len(sim_data))
            return sim_data

    d = tempfile.mkdtemp()
    try:
        for n in range(NVIS):
            v = visits(n)
            f = os.path.join(d, f"v{n}.h5")
            v.to_hdf(f, key="observations")
            H5[n] = open(f, "rb").read()
            f = os.path.join(d, f"v{n}.db")
            c = sqlite3.connect(f)
            v.to_sql("observations", c, index=False)
            pd.DataFrame({"a": [n]}).to_sql("info", c, index=False)
            c.commit()
            c.close()
            DBS[n] = open(f, "rb").read()
        pd.read_hdf(os.path.join(d, "v0.h5"), key="observations")
        ResourcePath(d).join("x.y").write(b"1")
    finally:
        shutil.rmtree(d)


def visits(n):
    if n < 6:
        return vseq.visits(2 * n + 1)
    import pandas as pd

    if n == 6:  # equal visits, out of order, values missing
        return pd.DataFrame({"s_ra": [4.5, 1.0, 4.5, 4.5, 1.0], "observationId": [9, 2, 9, 9, 2], "band": ["r", "g", "r", "r", "g"], "snr": [1.0, np.nan, 1.0, 1.0, np.nan]})
    k = 150
    return pd.DataFrame({"s_ra": np.arange(k)[::-1] % 40 * 0.25, "observationId": np.arange(k) * 37 % 101, "band": ["ugrizy"[i % 6] for i in range(k)]})


def which(df):
    """Which table of visits is this? (index of the reference table)"""
    import pandas as pd

    for n in range(NVIS):
        try:
            pd.testing.assert_frame_equal(df.reset_index(drop=True), visits(n), check_dtype=False)
            return ["vis", n]
        except AssertionError:
            pass
    return ["alien visits", df.to_csv()[:300]]


def generate(seed, tier):
    r = random.Random(seed)
    g = vseqgen.Gen(r)
    init = [g.record(init=True) for _ in range(r.choice([1, 1, 2, 3]))]
    p = r.choice([0.0, 0.3, 0.6])
    few = r.random() < 0.6
    names = NAMES[:1] if few else NAMES
    ncl = r.choice([1, 1, 2, 2, 3])
    cnt = [0]

    def add():
        t = r.choice(TYPES + ["visits"])
        op = {"u": r.randrange(len(init)), "t": t, "upd": r.random() < 0.5}
        if t == "visits":
            op.update(k="add", vis=r.randrange(NVIS), form=r.choice(["h5", "h5", "db"]), name=r.choice(["visits.h5", "out.h5", "opsim.h5"]))
            if op["form"] == "db":
                op["name"] = r.choice(["opsim.db", "out.sqlite", "baseline.DB"])
        else:
            cnt[0] += 1
            op.update(k="add", con=r.choice([cnt[0], cnt[0], r.randrange(3)]), name=r.choice(names))
        op["cli"] = r.random() < 0.2
        return op

    def read():
        t = r.choice(TYPES + ["visits", "visits"])
        op = {"k": "read", "u": r.randrange(len(init)), "t": t, "how": r.choice(["url", "url", "sha", "cli"] if t != "visits" else ["url", "visits", "visits", "cli", "clidb"])}
        if op["how"] == "visits":
            op["q"] = r.choice([None, None, "s_ra > 3", "observationId >= 8"])
            op["stack"] = r.random() < 0.4
        return op

    clients = []
    for c in range(ncl):
        ops = []
        for _ in range(r.randrange(2, 9 if ncl == 1 else 6)):
            x = r.random()
            op = add() if x < 0.6 else read() if x < 0.93 else {"k": "tel", "u": r.randrange(len(init)), "to": r.choice(["auxtel", "simonyi"])}
            if r.random() < p:
                op["fault"] = fault(r)
            ops.append(op)
        clients.append({"name": f"c{c}", "ops": ops})
    # PyTables does not report every failure to write the temporary file it is converting into
    quiet = any(op.get("form") == "db" and op.get("fault", {}).get("kind") in ("io_eio", "io_enospc") for c in clients for op in c["ops"])
    return {"clients": clients, "init": init, "sched_seed": seed, "stay": r.choice([0.1, 0.4, 0.7]), "t0": g.t0,
            "ioyield": r.random() < 0.35, "tmpin": r.random() < 0.4 and not quiet}


def fault(r):
    k = r.choice(["crash", "crash", "crash", "pg_lost", "pg_lost", "pg_err", "io_crash", "io_crash", "io_torn", "io_torn", "io_eio", "io_enospc", "io_short"]
                 + (["pg_down"] if r.random() < 0.1 else []))
    f = {"kind": k, "at": r.randrange(1, 9)}
    if k.startswith("io"):
        f["at"] = r.choice([r.randrange(1, 5), r.randrange(1, 9), r.randrange(1, 60)])
        if k == "io_enospc" and r.random() < 0.5:
            f["sticky"] = 1
    elif r.random() < 0.5:
        f.update(on=["commit", "committed"], at=1)
    return f


# -- inside a simulated process --------------------------------------------------------
def base_url(d):
    return "file://" + os.path.join(d, "arch") + "/"


def client(init, d):
    def fn(state, op):
        warnings.simplefilter("ignore")
        import logging

        logging.disable(logging.CRITICAL)
        try:
            if "md" not in state:
                vseq.make(state)
            return perform(state["md"], op, uuidlib.UUID(init[op["u"]]), d)
        except Exception as e:
            core.SIM.phase = "lost" if pg.lost(e) else "refused"
            raise

    return fn


def perform(md, op, u, d):
    import pandas as pd
    from lsst.resources import ResourcePath

    from rubin_sim.sim_archive import vseqarchive as va

    if op["k"] == "tel":
        md.update_visitseq_metadata(u, "telescope", op["to"])
        return None
    if op["k"] == "add":
        f = origin(d, op)
        if op["cli"]:
            ctx_call(va.archive_file, md, uuid=u, origin=f, file_type=op["t"], archive_base=base_url(d), update=op["upd"])
            return None
        kw = {"update": True} if op["upd"] else {}
        rp = va.add_file(md, u, f, op["t"], ResourcePath(base_url(d)) if op["u"] % 2 else base_url(d), **kw)
        if op.get("form") != "db":
            with open(f, "rb") as o:
                if rp.read() != o.read():
                    return "the returned location does not hold the file"
        return None
    t = op["t"]
    how = op["how"]
    if how == "sha":
        return ["sha", bytes(md.get_file_sha256(u, t)).hex()]
    if how in ("cli", "clidb"):
        dest = os.path.join(d, "out", f"{core.SIM.name}-{core.os.getpid()}-{len(os.listdir(os.path.join(d, 'out')))}" + (".db" if how == "clidb" else ".x"))
        if t == "visits" and md.get_visitseq_url(u) is None:
            return None
        ctx_call(va.get_file, md, uuid=u, file_type=t, destination=dest)
        if how == "clidb":
            c = sqlite3.connect(dest)
            df = pd.read_sql_query("select * from observations order by rowid", c)
            c.close()
            return which(df)
        return decode(t, dest)
    url = md.get_visitseq_url(u) if t == "visits" and op["u"] % 2 else md.get_file_url(u, t)
    if url is None:
        return None
    if how == "visits":
        q, st = op["q"], op["stack"]
        df = va.get_visits(url, *([q] if q else []), **({"stackers": [SimStacker()]} if st else {}))
        cols = list(df.columns)
        if st:
            if cols[0] == "index":
                df = df.drop(columns=["index"])
            if "simdouble" not in df.columns:
                if len(df):  # stackers leave an empty table as it is
                    return ["alien", "no stacked column"]
                df["simdouble"] = df["s_ra"] * 2
            if not (df["simdouble"] == df["s_ra"] * 2 + 1000 * len(df) + np.arange(len(df))).all():
                return ["alien", "stacked column was not computed from these visits"]
            df = df.drop(columns=["simdouble"])
        if not q:
            return which(df)
        for n in range(NVIS):
            try:
                pd.testing.assert_frame_equal(df.reset_index(drop=True), select(visits(n), q), check_dtype=False)
                # the selection may not identify the table
                return ["sel", q, [m for m in range(NVIS) if select(visits(m), q).equals(select(visits(n), q))]]
            except AssertionError:
                pass
        return ["alien visits", df.to_csv()[:300]]
    rp = ResourcePath(url)
    p = os.path.join(d, "out", f"r{core.os.getpid()}")
    with open(p, "wb") as f:
        f.write(rp.read())
    return decode(t, p)


def select(df, q):
    col, rel, val = q.split()
    m = df[col].to_numpy() > float(val) if rel == ">" else df[col].to_numpy() >= float(val)
    return df[m].reset_index(drop=True)


def ctx_call(command, md, **kw):
    """Call a command of the command line interface."""
    import click

    with click.Context(command, obj=md):
        command.callback(**kw)


def decode(t, path):
    """What does this file hold, in the model's terms?"""
    import pandas as pd

    if t == "visits":
        return which(pd.read_hdf(path, key="observations"))
    with open(path, "rb") as f:
        return ["sha", hashlib.sha256(f.read()).hexdigest()]


def origin(d, op):
    k = f"v{op['vis']}{op['form']}" if "vis" in op else f"c{op['con']}"
    return os.path.join(d, "in", k, op["name"])


def value(op):
    return ["vis", op["vis"]] if "vis" in op else ["sha", hashlib.sha256(content(op["con"])).hexdigest()]


# -- judging -----------------------------------------------------------------------------
def registered(run):
    """(uuid, type, url, sha) of everything registered now."""
    out = []
    for u, t, h, url in pg.SERVER.q(f"select visitseq_uuid, file_type, file_sha256, file_url from {pg.SCHEMA}.files order by 1, 2"):
        out.append((str(u), t, url, bytes(h).hex()))
    for u, url in pg.SERVER.q(f"select visitseq_uuid, visitseq_url from {pg.SCHEMA}.visitseq order by 1"):
        if url is not None and url.startswith("file:///") and "/arch/" in url:
            out.append((str(u), "visits", url, None))
    return out


def local(url):
    from urllib.parse import unquote, urlparse

    return unquote(urlparse(url).path)


def body(run, scn):
    from collections import defaultdict

    d = run.dir
    for s in ("arch", "in", "out", "tmp"):
        os.mkdir(os.path.join(d, s))
    for c in scn["clients"]:
        for op in c["ops"]:
            if op["k"] == "add":
                f = origin(d, op)
                os.makedirs(os.path.dirname(f), exist_ok=True)
                with open(f, "wb") as o:
                    o.write((H5[op["vis"]] if op["form"] == "h5" else DBS[op["vis"]]) if "vis" in op else content(op["con"]))
    init_ops = [{k: v for k, v in s.items() if k != "url"} for s in scn["init"]]
    o = run.observe(vseq.make_init, init_ops, run.now)
    if o[0] != "ok":
        run.violation("record-failed", f"recording {init_ops} raised {o[1]}: {o[2]}")
        return
    init = o[1]
    tmp = os.path.join(d, "tmp") if scn.get("tmpin") else tempfile.mkdtemp(prefix="tmp", dir=os.path.dirname(d))

    def setup(state):
        tempfile.tempdir = tmp

    given = {value(op)[1]: op for c in scn["clients"] for op in c["ops"] if op["k"] == "add"}

    def ev(p, what):
        if run.violations:
            return
        for u, t, url, sha in registered(run):
            path = local(url)
            if not os.path.isfile(path):
                run.violation("missing", f"{t} of {u} is registered at {url}, where there is nothing")
                return
            if sha is not None:
                with open(path, "rb") as f:
                    have = hashlib.sha256(f.read()).hexdigest()
                if have != sha:
                    run.violation("hash", f"{t} of {u} at {url} has hash {have[:12]}, not the registered {sha[:12]} (of {given.get(sha)}; content of {given.get(have)})")
                    return

    run.on_event = ev
    for c in scn["clients"]:
        run.add(c["name"], client(init, d), c["ops"], setup=setup)
    run.go()
    if tmp != os.path.join(d, "tmp"):
        shutil.rmtree(tmp, ignore_errors=True)
    if run.violations:
        return
    ev(None, "final")
    if run.violations:
        return
    final = {}
    for u, t, url, sha in registered(run):
        o = run.observe(decode, t, local(url))
        if o[0] != "ok":
            run.violation("unreadable", f"{t} of {u} at {url}: {o[1]}: {o[2]}")
            return
        final[(init.index(u), t)] = o[1]
    keys = defaultdict(list)
    for h in run.history:
        if h["op"]["k"] != "tel":
            keys[(h["op"]["u"], h["op"]["t"])].append(h)
        elif h["s"] == "exc" and not run.faults:
            run.violation("failed", f"{h['op']} raised {h['e']}: {h['m']}")
            return
    for k in sorted(keys):
        bad = linearise(keys[k], final.get(k), k[1])
        if bad:
            run.violation("not-sequential", f"{k[1]} of sequence {k[0]}: {bad}")
            return


def linearise(hist, final, t):
    """None if one register explains the history."""
    n = len(hist)
    seen = set()
    stack = [(frozenset(), None)]
    best = (-1, None, None)
    while stack:
        done, v = stack.pop()
        if (done, str(v)) in seen:
            continue
        seen.add((done, str(v)))
        if len(done) > best[0]:
            best = (len(done), done, v)
        if len(done) == n:
            if v == final:
                return None
            continue
        limit = min((hist[i].get("end") or 10**9) for i in range(n) if i not in done)
        for i in range(n - 1, -1, -1):
            if i in done or hist[i]["start"] > limit:
                continue
            for v2 in step(hist[i], v, t):
                stack.append((done | {i}, v2))
    done, v = best[1], best[2]
    if len(done) == n:
        return f"all results fit with {v} in the end, but the archive has {final}"
    rest = [f"{h['c']}#{h['i']} { {k: x for k, x in h['op'].items() if k != 'fault'} } -> {h['s']} {h.get('v') if h['s'] == 'ok' else str(h.get('e')) + ': ' + str(h.get('m'))}"
            for i, h in enumerate(hist) if i not in done]
    return f"no order explains the results (best: {len(done)} of {n}, with {v} archived); then: " + " | ".join(rest[:4])


def step(h, v, t):
    op = h["op"]
    refused = op["k"] == "add" and t != "visits" and v is not None and not op["upd"]
    if op["k"] == "add":
        new = value(op)
        if h["s"] == "ok":
            return [] if refused or h["v"] is not None else [new]
        if h["s"] == "crash" or disturbed(h):
            return [v] if refused else [v, new]
        return [v] if refused and h["e"] == "ValueError" else []
    if h["s"] == "ok":
        got = h["v"]
        if got is None:
            return [v] if v is None else []
        if got[0] == "sel":
            return [v] if v is not None and v[1] in got[2] else []
        return [v] if got == v else []
    if h["s"] == "crash" or disturbed(h):
        return [v]
    # reading what is not there
    return [v] if v is None else []


def disturbed(h):
    return h.get("ph") == "lost" or h.get("fired")


def run(scn, ctx):
    run = core.Run(scn, ctx.base)
    try:
        pg.attach(run)
        if not run.violations:
            body(run, scn)
        return core.result_of(run)
    finally:
        run.cleanup()
