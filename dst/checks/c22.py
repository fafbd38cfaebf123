"""C22: simulations passed between the two archives arrive complete and unchanged."""

import datetime as dt
import hashlib
import os
import random
import shutil
import sqlite3
import tempfile
import uuid as uuidlib
import warnings

from .. import core, pg, proto, vseq

PROPERTY = "C22"
LEVEL = "exploration"
RUNS = {"quick": 260, "thorough": 10000}
WALL = {"quick": 240, "thorough": 1800}
REAL = ["rubin_sim.sim_archive.prototype (export_sim_to_prototype_sim_archive, transfer_archive_dir, read_archived_sim_metadata, check_opsim_archive_resource, compile_sim_metadata, find_latest_prenight_sim_for_nights)",
        "rubin_sim.sim_archive.vseqmetadata (import_sim_from_prototype_sim_archive, sim_metadata_yaml, metadata_yaml_from_prototype), vseqarchive, util and the commands",
        "lsst.resources on local directories", "HDF5, pandas, sqlite3, yaml, psycopg2, SQLAlchemy", "PostgreSQL 16 server (one per worker)"]
STUB = ["clocks, UUID generation and process scheduling (simulated)",
        "faults: kill at any statement, commit or I/O call, torn and short writes, I/O errors, full disk, lost sessions, statement errors"]
ASSUME = ["both archives are in file systems", "READ COMMITTED PostgreSQL 16 as installed", "HDF5 and SQLite report failures to write their temporary files",
          "an import that was interrupted may leave a sequence without any tags"]
RULE = "1-3 processes export 1-3 archived sequences to a prototype archive, add others to it, import its entries, list, compile, check and search it, with kills, disk errors and lost connections; every listed entry and every imported sequence is compared with its source."

global_init, worker_init, global_done = pg.global_init, pg.worker_init, pg.global_done
T0 = proto.T0
TYPES = ["rewards", "script", "stats"]
NAMES = ["out.txt", "out.txt", "make.py", "sim_metadata.yaml", "opsim.db", "o u.x"]


def warm():
    proto.warm()
    vseq.warm()
    from rubin_sim.sim_archive import vseqarchive  # noqa: F401

    d = tempfile.mkdtemp()
    try:
        import pandas as pd

        f = os.path.join(d, "v.h5")
        vseq.visits(1).to_hdf(f, key="observations")
        pd.read_hdf(f, "observations")
    finally:
        shutil.rmtree(d)


def content(n):
    return random.Random(n).randbytes([0, 3, 700, 9000][n % 4])


def generate(seed, tier):
    r = random.Random(seed)
    seqs = []
    for i in range(r.choice([1, 2, 2, 3])):
        a = r.randrange(0, 7)
        s = {"label": r.choice([f"seq {i}", f"seq {i} run at 2025-06-1{i}T10:00:00"]), "tel": r.choice(["simonyi", "simonyi", "auxtel"]), "vis": r.randrange(vseq.NVIS - 2),
             "first": r.choice([None, proto.NIGHTS[a], proto.NIGHTS[a]]), "tags": r.choice([[], ["ideal", "nominal"], ["ideal", "nominal"], ["x", "prenight"]]),
             "ver": r.choice([None, "3.1.4"]), "age": r.choice([0.0, 3600.0, 1e5, 3e5 + 0.123456]), "com": r.random() < 0.4, "extra": r.random() < 0.4, "dup": r.choice([0, 0, 1, 2]),
             "files": [[t, r.choice(NAMES), 10 * i + k] for k, t in enumerate(r.sample(TYPES, r.randrange(0, 4)))]}
        s["last"] = None if s["first"] is None else proto.NIGHTS[min(8, a + r.randrange(0, 4))]
        if s["first"] and r.random() < 0.1:
            s["last"] = None
        seqs.append(s)
    p = r.choice([0.0, 0.35, 0.6])
    nsim = [0]
    clients = []
    for c in range(r.choice([1, 1, 2, 3])):
        ops = []
        for _ in range(r.randrange(3, 8)):
            x = r.random()
            if x < 0.34:
                op = {"k": "export", "u": r.randrange(len(seqs)), "cli": r.random() < 0.2}
            elif x < 0.44:
                op = {"k": "archive", "n": nsim[0], "sim": proto.sim(r, nsim[0])}
                if r.random() < 0.4 and op["sim"]["label"]:
                    op["at"] = f"2025-06-1{r.randrange(1, 5)}T0{r.randrange(1, 9)}:00:00"
                nsim[0] += 1
            elif x < 0.76:
                op = {"k": "import", "i": r.randrange(6), "cli": r.random() < 0.2, "date": r.random() < 0.3}
                if r.random() < 0.1:
                    op["miss"] = r.choice([["2025-06-15", 77], ["2024-01-01", 1]])
            elif x < 0.82:
                op = {"k": "list", "comp": r.random() < 0.4}
            elif x < 0.86:
                op = {"k": "compile"}
            elif x < 0.9:
                op = {"k": "check", "i": r.randrange(6)}
            elif x < 0.97:
                a = r.choice(proto.NIGHTS)
                op = {"k": "find", "first": a, "last": r.choice([None, None, max(a, r.choice(proto.NIGHTS))]), "tags": r.choice([["ideal"], [], ["ideal", "nominal"]]), "tel": r.choice(["simonyi", "auxtel"]), "age": r.choice([1, 3])}
            else:
                op = {"k": "wait", "t": r.choice([1.0, 43200.0, 86400.0])}
            if op["k"] in ("export", "import", "archive") and r.random() < p:
                op["fault"] = fault(r)
            ops.append(op)
        clients.append({"name": f"c{c}", "ops": ops})
    quiet = any((o.get("fault") or {}).get("kind") in ("io_eio", "io_enospc", "io_short") for c in clients for o in c["ops"])
    return {"clients": clients, "seqs": seqs, "sched_seed": seed, "stay": r.choice([0.1, 0.4, 0.7, 0.95]), "t0": T0 + r.randrange(86400), "ioyield": r.random() < 0.4,
            "tmpin": r.random() < 0.3 and not quiet, "listing": r.choice([None, seed])}


def fault(r):
    k = r.choice(["crash", "crash", "io_crash", "io_crash", "io_crash", "io_torn", "io_torn", "pg_lost", "pg_err", "io_eio", "io_enospc", "io_short"])
    f = {"kind": k, "at": r.choice([r.randrange(1, 4), r.randrange(1, 12)])}
    if k.startswith("io"):
        f["at"] = r.choice([r.randrange(1, 8), r.randrange(1, 25), r.randrange(1, 70)])
        if k == "io_enospc":
            f["sticky"] = r.randrange(2)
    elif r.random() < 0.4:
        f.update(on=["commit", "committed"], at=r.randrange(1, 6))
    return f


# -- inside a simulated process ------------------------------------------------------------------
def store(d):
    return "file://" + os.path.join(d, "store") + "/"


def table(s):
    """The visits of a sequence, some of which have the same values."""
    v = vseq.visits(s["vis"])
    if s.get("dup"):
        import pandas as pd

        v = pd.concat([v, v.iloc[: s["dup"]]], ignore_index=True)
    return v


def extra(i):
    """Another table in the file with the visits."""
    import pandas as pd

    return pd.DataFrame({"reward": [0.5 * i, 1.5, 2.5], "what": ["a", "b", f"{i}"]})


def make_seqs(scn, d, now):
    """Record and archive the sequences everybody may export."""
    from astropy.time import Time

    from rubin_sim.sim_archive import vseqarchive as va

    warnings.simplefilter("ignore")
    st = {}
    vseq.make(st)
    md = st["md"]
    out = []
    os.makedirs(os.path.join(d, "in"))
    for i, s in enumerate(scn["seqs"]):
        kw = {"telescope": s["tel"], "creation_time": Time(now - s["age"], format="unix")}
        if s["first"]:
            kw["first_day_obs"] = s["first"]
        if s["last"]:
            kw["last_day_obs"] = s["last"]
        if s["ver"]:
            kw["scheduler_version"] = s["ver"]
        u = md.record_simulation_metadata(table(s), s["label"], **kw)
        f = os.path.join(d, "in", "visits.h5")
        table(s).to_hdf(f, key="observations", mode="w")
        if s.get("extra"):
            extra(i).to_hdf(f, key="rewards", mode="a")
        va.add_file(md, u, f, "visits", store(d))
        for t, name, n in s["files"]:
            f = os.path.join(d, "in", name)
            with open(f, "wb") as o:
                o.write(content(n))
            va.add_file(md, u, f, t, store(d))
        if s["tags"]:
            md.tag(u, *s["tags"])
        if s["com"]:
            md.comment(u, "not to be passed on")
        out.append(str(u))
    return out


def client(d, seqs):
    def fn(state, op):
        warnings.simplefilter("ignore")
        import logging

        logging.disable(logging.CRITICAL)
        try:
            return perform(state, d, op, seqs)
        except Exception as e:
            core.SIM.phase = "lost" if pg.lost(e) else "refused"
            raise

    return fn


def known(d):
    """Entries which are listed now."""
    return sorted((date, int(i)) for (date, i), f in proto.entries(d).items() if "sim_metadata.yaml" in f)


def perform(state, d, op, seqs):
    import click

    from rubin_sim.sim_archive import prototype as pr
    from rubin_sim.sim_archive import vseqarchive as va

    k = op["k"]
    if k == "wait":
        core.SIM.sleep(op["t"])
        return None
    if k in ("archive", "compile"):
        return proto.perform(state, d, dict(op, nights=9, append=True))
    if k == "list":
        kw = {"compilation_resource": proto.comp(d)} if op["comp"] else {}
        return sorted(proto.plain(pr.read_archived_sim_metadata(proto.base(d), num_nights=9, **kw)).items())
    if k == "find":
        s = pr.find_latest_prenight_sim_for_nights(op["first"], op["last"], tags=tuple(op["tags"]), telescope=op["tel"], max_simulation_age=op["age"], archive_uri=proto.base(d),
                                                   compilation_uri="file://" + os.path.join(d, "none.h5"))
        return None if s is None else s["uri"]
    if "md" not in state:
        vseq.make(state)
    md = state["md"]
    if k == "export":
        u = uuidlib.UUID(seqs[op["u"]])
        if op["cli"]:
            return echo(click, va.export_proto, md, uuid=u, proto_sim_archive_url=proto.base(d))
        return pr.export_sim_to_prototype_sim_archive(md, u, proto.base(d)).geturl()
    e = known(d)
    if k == "check":
        if not e:
            return None
        date, i = e[op["i"] % len(e)]
        return sorted(pr.check_opsim_archive_resource(proto.base(d) + f"{date}/{i}/").items())
    if "miss" in op:
        date, i = op["miss"]
    elif not e:
        return None
    else:
        date, i = e[op["i"] % len(e)]
    when = dt.date.fromisoformat(date) if op["date"] and not op["cli"] else date
    if op["cli"]:
        u = echo(click, va.import_proto, md, archive_base=store(d), sim_date=date, sim_index=str(i), proto_sim_archive_url=proto.base(d))
    else:
        u = md.import_sim_from_prototype_sim_archive(store(d), when, i if op["i"] % 2 else str(i), proto.base(d))
    return [str(u), date, i]


def echo(click, command, md, **kw):
    out = []
    old = click.echo
    click.echo = lambda x=None, *a, **k: out.append(str(x))
    try:
        with click.Context(command, obj=md):
            command.callback(**kw)
    finally:
        click.echo = old
    return out[-1]


# -- judging --------------------------------------------------------------------------------------
def rows(sql, *a):
    return pg.SERVER.q(sql.replace("$", pg.SCHEMA + "."), a or None)


def same_table(a, b):
    import pandas as pd

    try:
        pd.testing.assert_frame_equal(a.reset_index(drop=True), b.reset_index(drop=True), check_dtype=False)
        return True
    except AssertionError:
        return False


def obs_of(path, table="observations"):
    import pandas as pd

    c = sqlite3.connect(f"file:{path}?mode=ro", uri=True)
    try:
        return pd.read_sql_query(f"select * from {table} order by rowid", c)
    finally:
        c.close()


def entry_problem(d, url, seqs, scn, t0):
    """What is wrong with an exported entry (None: nothing), and the sequence it is of."""
    import yaml

    p = url[len("file://") :]
    try:
        with open(os.path.join(p, "sim_metadata.yaml"), "rb") as f:
            m = yaml.safe_load(f.read())
        if not isinstance(m, dict) or m.get("uuid") not in seqs:
            return "its metadata are of no sequence: " + str(m)[:200], None
    except Exception as e:
        return f"its metadata cannot be read: {type(e).__name__}", None
    n = seqs.index(m["uuid"])
    s = scn["seqs"][n]
    bad = []
    for k, want in (("label", s["label"]), ("telescope", s["tel"]), ("scheduler_version", s["ver"])):
        if m.get(k) != want:
            bad.append(f"{k}: {m.get(k)} instead of {want}")
    if sorted(m.get("tags") or []) != sorted(s["tags"]):
        bad.append(f"tags: {m.get('tags')} instead of {s['tags']}")
    dates = {k: v for k, v in (("first", s["first"]), ("last", s["last"])) if v}
    if (m.get("simulated_dates") or {}) != dates:
        bad.append(f"simulated_dates: {m.get('simulated_dates')} instead of {dates}")
    try:
        ct = m.get("creation_time")
        ct = ct if isinstance(ct, dt.datetime) else dt.datetime.fromisoformat(ct)
        ct = ct if ct.tzinfo else ct.replace(tzinfo=dt.timezone.utc)
        if abs(ct.timestamp() - (t0 - s["age"])) > 0.0015:
            bad.append(f"creation_time: {m['creation_time']} instead of {t0 - s['age']}")
    except Exception as e:
        bad.append(f"creation_time: {m.get('creation_time')} {e}")
    fs = dict(m.get("files") or {})
    fs.pop("metadata", None)
    if sorted(fs) != sorted([t for t, _, _ in s["files"]] + ["observations"]):
        bad.append(f"files: {sorted(fs)}")
        return "; ".join(bad), n
    names = [x["name"] for x in fs.values()]
    if len(set(names)) != len(names):
        bad.append(f"files of the same name: {names}")
    for t, x in fs.items():
        q = os.path.join(p, x["name"])
        if not os.path.isfile(q):
            bad.append(f"{t}: no file {x['name']}")
            continue
        with open(q, "rb") as f:
            b = f.read()
        if "url" in x and vlocal(x["url"]) != q:
            bad.append(f"{t}: at {x['url']}")
        if "md5" in x and hashlib.md5(b).hexdigest() != x["md5"]:
            bad.append(f"{t}: md5")
        if t == "observations":
            try:
                if not same_table(obs_of(q), table(s)):
                    bad.append("observations: not the visits of the sequence")
                if s.get("extra") and not same_table(obs_of(q, "rewards"), extra(n)):
                    bad.append("observations: not the rewards of the sequence")
            except Exception as e:
                bad.append(f"observations: {type(e).__name__} {e}")
        elif b != content([c for y, _, c in s["files"] if y == t][0]):
            bad.append(f"{t}: other content")
    return ("; ".join(bad) or None), n


def vlocal(url):
    from urllib.parse import unquote, urlparse

    return unquote(urlparse(url).path)


def entry_meta(d, date, i):
    import yaml

    p = os.path.join(d, "arch", date, str(i))
    with open(os.path.join(p, "sim_metadata.yaml"), "rb") as f:
        return p, yaml.safe_load(f.read())


def instant(m, date, i):
    """When the simulation of an entry was made, as far as the entry knows."""
    ct = m.get("creation_time")
    if ct is None and " ".join(m["label"].split()[-3:-1]) == "run at":
        ct = m["label"].split()[-1]
    if ct is None:
        return dt.datetime.fromisoformat(date + "T12:00:00+00:00").timestamp() + i
    ct = ct if isinstance(ct, dt.datetime) else dt.datetime.fromisoformat(ct)
    return (ct if ct.tzinfo else ct.replace(tzinfo=dt.timezone.utc)).timestamp()


def import_problem(d, u, date, i):
    """What is wrong with the sequence imported from an entry."""
    import pandas as pd

    p, m = entry_meta(d, date, i)
    got = rows("select visitseq_label, telescope, scheduler_version, first_day_obs, last_day_obs, extract(epoch from creation_time), visitseq_url, visitseq_sha256 from $simulations where visitseq_uuid=%s", u)
    if len(got) != 1:
        return f"{len(got)} simulations"
    label, tel, ver, a, b, ct, url, sha = got[0]
    dates = m.get("simulated_dates") or {}
    bad = []
    for k, x, want in (("label", label, m["label"]), ("telescope", tel, m.get("telescope", "simonyi")), ("scheduler_version", ver, m.get("scheduler_version")),
                       ("first_day_obs", a and a.isoformat(), dates.get("first")), ("last_day_obs", b and b.isoformat(), dates.get("last"))):
        if x != want:
            bad.append(f"{k}: {x} instead of {want}")
    if abs(float(ct) - instant(m, date, i)) > 0.0015:
        bad.append(f"creation time: {float(ct)} instead of {instant(m, date, i)}")
    tags = sorted(x[0] for x in rows("select tag from $tags where visitseq_uuid=%s", u))
    want = sorted(set([t for t in m.get("tags", []) if isinstance(t, str)] + ["from_prototype_sim_archive"]))
    if tags != want:
        bad.append(f"tags: {tags} instead of {want}")
    fs = {t: (bytes(h).hex(), x) for t, h, x in rows("select file_type, file_sha256, file_url from $files where visitseq_uuid=%s", u)}
    if sorted(set(fs) - {"metadata"}) != sorted(set(m["files"]) - {"metadata"}):
        bad.append(f"files: {sorted(fs)} instead of {sorted(m['files'])}")
    for t, (h, x) in fs.items():
        if t in m["files"] and vlocal(x) != os.path.join(p, m["files"][t]["name"]):
            bad.append(f"{t}: registered at {x}")
        elif os.path.exists(vlocal(x)):
            with open(vlocal(x), "rb") as f:
                if hashlib.sha256(f.read()).hexdigest() != h:
                    bad.append(f"{t}: hash")
        else:
            bad.append(f"{t}: nothing at {x}")
    try:
        src = obs_of(os.path.join(p, m["files"]["observations"]["name"]))
        df = pd.read_hdf(vlocal(url), "observations")
        if not same_table(df, src):
            bad.append("visits: not those of the entry")
        with pd.HDFStore(vlocal(url), mode="r") as h:
            keys = sorted(k.lstrip("/") for k in h.keys())
        db = os.path.join(p, m["files"]["observations"]["name"])
        c = sqlite3.connect(f"file:{db}?mode=ro", uri=True)
        want = sorted(x[0] for x in c.execute("select name from sqlite_master where type='table'"))
        c.close()
        if keys != want:
            bad.append(f"visits: tables {keys} instead of {want}")
        elif "rewards" in want and not same_table(obs_of(db, "rewards"), pd.read_hdf(vlocal(url), "rewards")):
            bad.append("visits: other rewards")
        from rubin_sim.sim_archive.vseqmetadata import compute_visits_sha256

        if bytes(sha) != compute_visits_sha256(src) and bytes(sha) != compute_visits_sha256(df):
            bad.append("visits: hash")
    except Exception as e:
        bad.append(f"visits at {url}: {type(e).__name__} {e}")
    return "; ".join(bad) or None


def complete(d, u):
    """Has a sequence everything, whatever the source? (used for imports which did not return)"""
    com = [x[0] for x in rows("select comment from $comments where visitseq_uuid=%s", u)]
    return com


def body(run, scn):
    d = run.dir
    for s in ("src", "comp", "tmp", "store", "arch"):
        os.mkdir(os.path.join(d, s))
    files = {}
    for c in scn["clients"]:
        for op in c["ops"]:
            if op["k"] == "archive":
                m, files[op["n"]] = proto.metadata(op)
                if "at" in op:
                    import yaml

                    m["label"] += " run at " + op["at"]
                    files[op["n"]]["sim_metadata.yaml"] = yaml.dump(m, indent=4).encode()
                p = os.path.join(d, "src", str(op["n"]))
                os.mkdir(p)
                for f, x in files[op["n"]].items():
                    with open(os.path.join(p, f), "wb") as o:
                        o.write(x)
    t0 = run.now
    o = run.observe(make_seqs, scn, d, run.now)
    if o[0] != "ok":
        run.violation("record-failed", f"archiving {scn['seqs']} raised {o[1:]}")
        return
    seqs = o[1]
    tmp = os.path.join(d, "tmp") if scn.get("tmpin") else tempfile.mkdtemp(prefix="tmp", dir=os.path.dirname(d))

    def setup(state):
        tempfile.tempdir = tmp
        proto.scramble(scn["listing"])

    sums = {j["sim_metadata.yaml"]: n for n, j in files.items()}
    seen = {}  # listed entry -> (its files, which source, when first listed)
    tagged = {}

    def ev(p, what):
        if run.violations:
            return
        now = proto.entries(d)
        for (date, i), have in now.items():
            url = proto.base(d) + f"{date}/{i}/"
            if url in seen:
                if {f: x for f, x in have.items() if f in seen[url][0]} != seen[url][0]:
                    run.violation("changed", f"entry {date}/{i} is not what it was when it was first listed, after {what} of {p and p.name}")
                    return
                continue
            if "sim_metadata.yaml" not in have:
                continue
            n = sums.get(have["sim_metadata.yaml"])
            if n is not None:
                if any(have.get(f) != x for f, x in files[n].items()):
                    run.violation("incomplete", f"entry {date}/{i} of simulation {n} is listed, but not complete")
                    return
                src = ["archive", n]
            else:
                bad, u = entry_problem(d, url, seqs, scn, t0)
                if bad:
                    run.violation("incomplete" if u is None or "no file" in bad else "wrong-export", f"entry {date}/{i} is listed after {what} of {p and p.name}; {bad}")
                    return
                src = ["export", u]
            import yaml

            m = yaml.safe_load(have["sim_metadata.yaml"])
            names = {x["name"] for x in (m.get("files") or {}).values()} | {"sim_metadata.yaml"}
            seen[url] = ({f: x for f, x in have.items() if f in names}, src, None)
        for (u,) in rows("select visitseq_uuid from $tags where tag='from_prototype_sim_archive' order by 1"):
            u = str(u)
            if u in tagged:
                continue
            com = complete(d, u)
            label = [x[0] for x in rows("select visitseq_label from $simulations where visitseq_uuid=%s", u)]
            cand = [x for x in seen if entry_label(seen[x][0]) in label]
            bads = []
            for x in cand:
                date, i = x.rstrip("/").split("/")[-2:]
                bad = import_problem(d, u, date, int(i))
                if bad is None:
                    tagged[u] = [date, int(i), com]
                    break
                bads.append(f"{date}/{i}: {bad}")
            else:
                run.violation("wrong-import", f"sequence {u} ({label}) has the tag of a finished import after {what} of {p and p.name}, but is not one: {bads[:2]}")
                return

    run.on_event = ev
    for c in scn["clients"]:
        run.add(c["name"], client(d, seqs), c["ops"], setup=setup)
    run.go()
    if tmp != os.path.join(d, "tmp"):
        shutil.rmtree(tmp, ignore_errors=True)
    if run.violations:
        return
    ev(None, "end")
    if run.violations:
        return
    judge(run, scn, d, seqs, seen, tagged)


def entry_label(have):
    import yaml

    try:
        return yaml.safe_load(have["sim_metadata.yaml"]).get("label")
    except Exception:
        return None


def judge(run, scn, d, seqs, seen, tagged):
    import yaml

    H = run.history
    urls = {}
    uuids = {}
    for h in H:
        op, what = h["op"], f"{h['c']}#{h['i']} { {k: v for k, v in h['op'].items() if k != 'fault'} }"
        k = op["k"]
        if h["s"] == "exc":
            if disturbed(h):
                continue
            if k == "import" and ("miss" in op and h["e"] == "ValueError" or h["m"] and "label" in h["m"] and h["e"] == "ValueError"):
                continue
            run.violation("op-failed", f"{what}: {h['e']}: {h['m']} {h['w']}")
            return
        if h["s"] != "ok":
            continue
        v = h["v"]
        if k in ("export", "archive"):
            if v in urls:
                run.violation("same-entry", f"{what} and {urls[v]} both made {v}")
                return
            urls[v] = what
            if v not in seen:
                run.violation("not-listed", f"{what} returned {v}, which is not listed")
                return
            if seen[v][1] != (["export", op["u"]] if k == "export" else ["archive", op["n"]]):
                run.violation("wrong-export", f"{what} returned {v}, which is of {seen[v][1]}")
                return
        elif k == "import" and v is not None:
            u, date, i = v
            if "miss" in op:
                run.violation("wrong-import", f"{what} returned {u}")
                return
            if u in uuids or u in seqs:
                run.violation("wrong-import", f"{what} returned {u}, which was there before")
                return
            uuids[u] = what
            bad = import_problem(d, u, date, i)
            if bad:
                run.violation("wrong-import", f"{what}: {u} imported from {date}/{i}: {bad}")
                return
            com = complete(d, u)
            if com != [f"Imported from prototype sim_archive {date}, {i}"]:
                run.violation("wrong-import", f"{what}: comments {com}")
                return
        elif k == "list":
            for url, m in v:
                url = url if url.endswith("/") else url + "/"
                if url not in seen:
                    run.violation("wrong-list", f"{what}: lists {url}")
                    return
                bad = listed_problem(seen[url][0], m, url, op["comp"])
                if bad:
                    run.violation("wrong-list", f"{what}: {url}: {bad}")
                    return
            have = {x[0] if x[0].endswith("/") else x[0] + "/" for x in v}
            miss = [url for url in urls if url not in have and ends(H, url) <= h["start"]]
            if miss and not op["comp"]:
                run.violation("wrong-list", f"{what}: does not list {miss}")
                return
        elif k == "check" and v is not None and not all(x for _, x in v):
            run.violation("check", f"{what}: {v}")
            return
        elif k == "find":
            hi = best(d, seen, op, h["t1"], scn)
            lo = best(d, {u: seen[u] for u in urls if ends(H, u) <= h["start"]}, op, h["t1"], scn)
            lo2 = best(d, {u: seen[u] for u in urls if ends(H, u) <= h["start"]}, op, h["t0"], scn)
            ok = {x and x[1] for x in (hi, lo, lo2)}
            v = v if v is None or v.endswith("/") else v + "/"
            if v not in ok and (v is None or v not in seen or not covers(seen[v], op) or key(v) < min(key(x[1]) if x else (0, 0) for x in (lo, lo2))):
                run.violation("wrong-latest", f"{what}: {v}, expected {sorted(map(str, ok))}")
                return
    # sequences nobody returned: of interrupted imports
    others = [str(x[0]) for x in rows("select visitseq_uuid from $simulations") if str(x[0]) not in uuids and str(x[0]) not in seqs]
    left = [h for h in H if h["op"]["k"] == "import" and h["s"] != "ok" and (h["s"] == "crash" or disturbed(h))]
    if len(others) > len(left):
        run.violation("alien-sequence", f"{len(others)} sequences of {len(left)} interrupted imports")
        return
    for u in others:
        n = rows("select count(*) from $tags where visitseq_uuid=%s", u)[0][0]
        if n and u not in tagged:
            t = [x[0] for x in rows("select tag from $tags where visitseq_uuid=%s", u)]
            # tags come last: everything else is there
            m = rows("select visitseq_url from $simulations where visitseq_uuid=%s", u)[0][0]
            f = [x[0] for x in rows("select file_type from $files where visitseq_uuid=%s", u)]
            if m is None or "observations" not in f:
                run.violation("wrong-import", f"the unfinished import {u} has the tags {t}, but url {m} and files {f}")
                return
    for url, (have, src, _) in seen.items():
        if url not in urls:
            ok = any(h["op"]["k"] == src[0] and h["op"].get("u", h["op"].get("n")) == src[1] and h["s"] != "ok" for h in H)
            if not ok:
                run.violation("alien-entry", f"{url} is of {src}, which nobody was adding")
                return
    # what was exported and archived before is still as it was
    for i, u in enumerate(seqs):
        s = scn["seqs"][i]
        lab = rows("select visitseq_label from $simulations where visitseq_uuid=%s", u)
        tags = sorted(x[0] for x in rows("select tag from $tags where visitseq_uuid=%s", u))
        if [list(x) for x in lab] != [[s["label"]]] or tags != sorted(s["tags"]):
            run.violation("source-changed", f"sequence {i}: {lab} {tags}")
            return


def ends(H, url):
    return min([h["end"] for h in H if h["s"] == "ok" and h["v"] == url and h["op"]["k"] in ("export", "archive")] or [10**18])


def key(url):
    a = url.rstrip("/").split("/")
    return a[-2], int(a[-1])


def covers(entry, op):
    import yaml

    m = yaml.safe_load(entry[0]["sim_metadata.yaml"])
    dts = m.get("simulated_dates") or {}
    return ("first" in dts and "last" in dts and str(dts["first"]) <= op["first"] and str(dts["last"]) >= (op["last"] or op["first"])
            and m.get("telescope", op["tel"]) == op["tel"] and set(op["tags"]) <= set(m.get("tags") or []))


def best(d, seen, op, t, scn):
    ok = [(key(u), u) for u in seen if covers(seen[u], op) and key(u)[0] >= proto.day_before(t, op["age"] - 1) and key(u)[0] <= proto.date_of(t)]
    return max(ok) if ok else None


def listed_problem(have, m, url, comp):
    """Metadata given by a listing against those of the entry."""
    import yaml

    w = yaml.safe_load(have["sim_metadata.yaml"])
    bad = []
    lab = "/".join(map(str, key(url)))
    if "label" in w and m.get("label") != f"{lab} {w['label']}":
        bad.append(f"label {m.get('label')}")
    if (m.get("simulated_dates") or {}) != (w.get("simulated_dates") or {}):
        bad.append(f"dates {m.get('simulated_dates')} instead of {w.get('simulated_dates')}")
    if sorted(m.get("tags") or []) != sorted(w.get("tags") or []):
        bad.append(f"tags {m.get('tags')}")
    if m.get("telescope") != w.get("telescope"):
        bad.append(f"telescope {m.get('telescope')}")
    a = {t: x["name"] for t, x in m["files"].items()}
    b = {t: x["name"] for t, x in w["files"].items()}
    if a != b:
        bad.append(f"files {a} instead of {b}")
    return "; ".join(bad) or None


def disturbed(h):
    return h.get("ph") == "lost" or h.get("fired")


def run(scn, ctx):
    run = core.Run(scn, ctx.base)
    try:
        pg.attach(run)
        if not run.violations:
            body(run, scn)
        return core.result_of(run)
    finally:
        run.cleanup()
