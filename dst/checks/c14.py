"""C14: the pre-night index and selection return the newest valid simulation."""

import contextlib
import datetime as dt
import itertools
import json
import os
import random
import shutil
import sqlite3
import tempfile
import uuid as uuidlib
import warnings

from .. import core, pg, vseq

PROPERTY = "C14"
LEVEL = "exploration"
RUNS = {"quick": 450, "thorough": 15000}
WALL = {"quick": 240, "thorough": 1800}
REAL = ["rubin_sim.sim_archive.prenightindex", "rubin_sim.sim_archive.sim_archive (find_latest_prenight_sim_for_nights, fetch_sim_for_nights, fetch_sim_stats_for_night)",
        "rubin_sim.sim_archive.vseqarchive (make_prenight_index, get_visits), vseqmetadata", "lsst.resources on a local directory", "PostgreSQL 16 server (one per worker)"]
STUB = ["clocks, UUID generation and process scheduling (simulated)", "faults: database unreachable, sessions lost, statement errors, refused connections, index never written"]
ASSUME = ["index objects are stored atomically", "creation times differ", "the database session's time zone is UTC", "an age is counted in whole days, as the selection does"]
RULE = "one archiving process and one reading process in virtual time over days; every answer must be what the database (when it answered) or the stored index (when it did not) held at some moment of the call."

global_init, worker_init, global_done = pg.global_init, pg.worker_init, pg.global_done
UTC = dt.timezone.utc
DAY = 86400.0
T0 = 1750000000.0 - 1750000000.0 % DAY  # 2025-06-15 00:00 UTC
NIGHTS = [(dt.date(2025, 6, 14) + dt.timedelta(days=i)).isoformat() for i in range(-2, 6)]
NVIS = 4
H5, DB = {}, {}


def warm():
    vseq.warm()
    import pandas as pd
    from lsst.resources import ResourcePath

    from rubin_sim.sim_archive import prenightindex, sim_archive, vseqarchive  # noqa: F401

    d = tempfile.mkdtemp()
    try:
        for n in range(NVIS):
            f = os.path.join(d, f"v{n}.h5")
            visits(n).to_hdf(f, key="observations")
            H5[n] = open(f, "rb").read()
            g = os.path.join(d, f"v{n}.db")
            with contextlib.closing(sqlite3.connect(g)) as con:
                visits(n).to_sql("observations", con, index=False)
            DB[n] = open(g, "rb").read()
        pd.read_hdf(f, key="observations")
        ResourcePath(d).join("x.y").write(b"1")
    finally:
        shutil.rmtree(d)


def mjd(night, frac):
    return (dt.date.fromisoformat(night) - dt.date(1858, 11, 17)).days + 0.5 + frac


def visits(n):
    """A table of visits over several nights, with times near the turns of nights."""
    import pandas as pd

    r = random.Random(n)
    t = sorted(mjd(x, f) for x in NIGHTS for f in r.sample([0.00001, 0.2, 0.4999, 0.5001, 0.7, 0.99999], r.choice([0, 1, 2, 3])))
    k = len(t)
    return pd.DataFrame({"observationStartMJD": t, "observationId": [100 * n + i for i in range(k)], "altitude": [40.0 + i for i in range(k)],
                         "azimuth": [10.0 * n + i for i in range(k)], "band": ["r"] * k})


def night_of(t):
    return (dt.date(1858, 11, 17) + dt.timedelta(days=int(t - 0.5))).isoformat()


def vids(n, a, b):
    v = visits(n)
    return [int(i) for i, t in zip(v["observationId"], v["observationStartMJD"]) if a <= night_of(t) <= b]


# -- scenarios ----------------------------------------------------------------------------
def generate(seed, tier):
    r = random.Random(seed)
    t0 = T0 + r.choice([0, 3600 * r.randrange(24), 12 * 3600 - 40, 12 * 3600 + 5, r.randrange(86400)])
    n = r.randrange(2, 7)
    dense = r.random() < 0.4  # most simulations qualify, recorded in any order
    n = n + 2 if dense else n
    sims = []
    for i in range(n):
        a = r.randrange(0, 6)
        s = {"id": i, "label": r.choice([f"sim {i}", f"2025061{i}", f"{i}.50", f"Nominal, run {i}"]), "vis": r.randrange(NVIS), "days": [NIGHTS[a], NIGHTS[min(7, a + r.randrange(0, 5))]]}
        if r.random() < 0.07:
            s["days"] = r.choice([[None, None], [NIGHTS[a], None]])
        s["tel"] = r.choice(["simonyi", "simonyi", "auxtel"])
        s["ver"] = r.choice([None, "3.20", "3.21.1", "4"])
        if r.random() < 0.6:
            back = 0.05 * r.randrange(1, 9) if r.random() < 0.35 else r.choice([0.01, 0.3, 0.9, 1.5, 2.5, 2.98, 3.02, 4, 364, 366, 900])
            s["creation"] = dt.datetime.fromtimestamp(t0 - back * DAY - i * 17, UTC).replace(tzinfo=None).isoformat(timespec="milliseconds")
        s["url"] = r.random() < 0.75
        s["opsim"] = r.random() < 0.4
        s["ext"] = r.choice(["h5", "db", "db"])
        s["tags"] = r.choice([["prenight", "ideal", "nominal"]] * 4 + [["prenight"], ["ideal", "nominal"], ["prenight", "ideal"], ["prenight", "ideal", "nominal", "x"]])
        if r.random() < 0.4:
            s["stats"] = [NIGHTS[r.randrange(0, 8)] for _ in range(2)]
        if r.random() < 0.2:
            s["conda"] = "ab" * 32
        if r.random() < 0.2:
            s["parent"] = True
        if dense and r.random() < 0.85:
            s.update(days=[NIGHTS[0], NIGHTS[7]], tel="simonyi", tags=["prenight", "ideal", "nominal"],
                     creation=dt.datetime.fromtimestamp(t0 - r.choice([0.05, 0.1, 0.3, 0.5, 0.8, 1.2, 1.6]) * DAY - i * 17, UTC).replace(tzinfo=None).isoformat(timespec="milliseconds"))
        sims.append(s)
    w = [{"k": "sim", "s": i} for i in range(n)]
    for _ in range(r.randrange(0, 4)):
        w.insert(r.randrange(1, len(w) + 1), r.choice([{"k": "tag", "s": r.randrange(n), "t": "x"}, {"k": "untag", "s": r.randrange(n), "t": r.choice(["prenight", "ideal", "nominal"])}]))
    days = [r.choice(NIGHTS[1:7]) for _ in range(2)]
    for _ in range(r.randrange(2, 7)):
        w.insert(r.randrange(1, len(w) + 1), {"k": "mkindex", "day": r.choice(days), "tel": r.choice(["simonyi", "simonyi", "auxtel"])})
    for _ in range(r.randrange(0, 3)):
        w.insert(r.randrange(len(w) + 1), {"k": "wait", "t": r.choice([1.0, 3600.0, 12 * 3600.0, DAY, 3 * DAY])})
    ops = []
    down = r.choice([0.1, 0.35, 0.8])
    for _ in range(r.randrange(4, 12)):
        x = r.random()
        op = {"day": r.choice(days + [r.choice(NIGHTS)]), "form": r.choice(["str", "str", "int", "date"]), "tel": r.choice(["simonyi", "simonyi", "auxtel"]),
              "k": "index" if x < 0.2 else "select" if x < 0.3 else "latest" if x < 0.5 else "visits" if x < 0.65 else "simid" if x < 0.77 else "simmeta" if x < 0.88 else "stats"}
        if op["k"] in ("latest", "visits", "stats", "select"):
            op["age"] = r.choice([None, None, 1, 3, 400])
            op["tags"] = r.choice([None, None, ["prenight"], ["ideal", "x"], []])
            op["last"] = r.choice([None, max(op["day"], r.choice(days + [r.choice(NIGHTS)]))])
            if op["k"] == "visits" and r.random() < 0.5:
                op["stk"] = r.choice([["arg"], ["kw"], ["arg", "iso"], ["kw", "iso"]])
            op["now"] = op["k"] in ("latest", "visits") and r.random() < 0.15
            if op["k"] == "select":
                op.update(last=None, perm=r.randrange(1000))
        elif op["k"] == "simid":
            op.update(s=r.randrange(n), off=r.choice([0, 0, 0, 1, -1]), direct=r.random() < 0.25)
        elif op["k"] == "simmeta":
            op.update(s=r.choice([None] + list(range(n)) * 2), direct=r.random() < 0.25, asstr=r.random() < 0.5)
        op["db"] = r.random() > down
        if op["db"] and r.random() < 0.3:
            op["fault"] = {"kind": r.choice(["pg_lost", "pg_err"]), "at": r.randrange(1, 12)}
            if r.random() < 0.4:
                op["fault"].update(on=["connect"], at=r.randrange(1, 6))
        ops.append(op)
        if r.random() < 0.15:
            ops.append({"k": "wait", "t": r.choice([1.0, 3600.0, DAY / 2, DAY])})
    return {"clients": [{"name": "arch", "ops": w}, {"name": "user", "ops": ops}], "sims": sims, "sched_seed": seed,
            "stay": r.choice([0.2, 0.6, 0.95]), "first": r.random() < 0.5, "t0": t0}


# -- inside simulated processes -------------------------------------------------------------
def parent_of(i):
    return uuidlib.UUID(int=0x77 + i)


def url(d, n, ext="h5"):
    return "file://" + os.path.join(d, f"v{n}.{ext}")


def writer(scn, d, uuids):
    import click

    def fn(state, op):
        warnings.simplefilter("ignore")
        import logging

        logging.disable(logging.CRITICAL)
        from astropy.time import Time
        from lsst.resources import ResourcePath

        from rubin_sim.sim_archive import vseqarchive as va

        if op["k"] == "wait":
            core.SIM.sleep(op["t"])
            return None
        if "md" not in state:
            vseq.make(state)
        md = state["md"]
        if op["k"] == "mkindex":
            with click.Context(va.make_prenight_index, obj=md):
                y, m, q = map(int, op["day"].split("-"))
                va.make_prenight_index.callback(dayobs=dt.datetime(y, m, q), telescope=op["tel"], destination=bucket(d))
            return None
        s = scn["sims"][op["s"]]
        if op["k"] == "sim":
            kw = {"telescope": s["tel"], "first_day_obs": s["days"][0], "last_day_obs": s["days"][1], "scheduler_version": s["ver"]}
            if "creation" in s:
                kw["creation_time"] = Time(s["creation"], scale="utc")
            if s["url"]:
                kw["url"] = url(d, s["vis"])
            if "conda" in s:
                kw["conda_env_sha256"] = bytes.fromhex(s["conda"])
            if "parent" in s:
                kw["parent_visitseq_uuid"] = parent_of(s["id"])
            u = md.record_simulation_metadata(visits(s["vis"]), s["label"], **kw)
            state.setdefault("u", {})[op["s"]] = u
            with open(os.path.join(d, "uuids"), "a") as f:
                f.write(json.dumps([op["s"], str(u)]) + "\n")
            for i, x in enumerate(s.get("stats", [])):
                if x in s["stats"][:i]:
                    continue
                row = {"day_obs": dt.date.fromisoformat(x), "value_name": "altitude", "accumulated": False, "count": 10 * op["s"] + i + 1}
                row.update({c: 1.5 for c in ("mean", "std", "min", "p05", "q1", "median", "q3", "p95", "max")})
                import pandas as pd

                md.insert_nightly_stats(u, pd.DataFrame([row]))
            if s["opsim"]:
                md.register_file(u, "opsim", bytes(32), ResourcePath(url(d, s["vis"], s["ext"])))
            md.tag(u, *s["tags"])
            return str(u)
        u = state["u"].get(op["s"]) if "u" in state else None
        if u is None:
            return {"skip": True}
        if op["k"] == "tag":
            md.tag(u, op["t"])
        elif md.is_tagged(u, op["t"]):
            md.untag(u, op["t"])
        return None

    return fn


def bucket(d):
    return "file://" + os.path.join(d, "bucket") + "/"


def form(op, day):
    x = dt.date.fromisoformat(day)
    return day if op["form"] == "str" else x if op["form"] == "date" else x.year * 10000 + x.month * 100 + x.day


def rowof(r):
    """The part of an index row that both sources give."""
    def iso_day(x):
        return None if x is None or x != x else str(x)[:10]

    def text(x):
        return None if x is None or x != x else x

    t = r["creation_time"]
    f = r["files"]
    return {"label": r["visitseq_label"], "url": text(r["visitseq_url"]), "tel": r["telescope"], "days": [iso_day(r["first_day_obs"]), iso_day(r["last_day_obs"])],
            "t": ms(t.timestamp()), "ver": text(r["scheduler_version"]), "tags": sorted(r["tags"]), "id": int(r["daily_id"]), "made": iso_day(r["sim_creation_day_obs"]),
            "files": f, "parent": None if text(r["parent_visitseq_uuid"]) is None else str(r["parent_visitseq_uuid"]),
            "conda": hexof(text(r["conda_env_sha256"]))}


def ms(t):
    """A time to the millisecond, which is what the stored index keeps."""
    return int(t * 1e6 + 0.5) // 1000 / 1000


def hexof(x):
    return x if x is None or isinstance(x, str) else bytes(x).hex()


def known(d):
    try:
        with open(os.path.join(d, "uuids")) as f:
            return dict(json.loads(x) for x in f)
    except FileNotFoundError:
        return {}


def reader(scn, d):
    def fn(state, op):
        warnings.simplefilter("ignore")
        import logging

        logging.disable(logging.CRITICAL)
        if op["k"] == "wait":
            core.SIM.sleep(op["t"])
            return None
        from rubin_sim.sim_archive import vseqmetadata
        from rubin_sim.sim_archive import prenightindex as pi
        from rubin_sim.sim_archive import sim_archive as sa

        dsn = pg.SERVER.dsn()
        if not op["db"]:
            dsn["host"] = os.path.join(d, "nowhere")
        kw = dict(dsn, schema=pg.SCHEMA, prenight_index_path=bucket(d))
        vseqmetadata.VSARCHIVE_PGHOST, vseqmetadata.VSARCHIVE_PGUSER = dsn["host"], dsn["user"]
        vseqmetadata.VSARCHIVE_PGDATABASE, vseqmetadata.VSARCHIVE_PGSCHEMA = dsn["database"], pg.SCHEMA
        k = op["k"]
        if k == "index":
            df = pi.get_prenight_index(form(op, op["day"]), op["tel"], **kw)
            if len(df) and df.index.name != "visitseq_uuid":
                return {"alien": f"index named {df.index.name}"}
            return {str(u): rowof(r) for u, r in df.iterrows()}
        if k == "select":  # from an index in any order
            df = pi.get_prenight_index(form(op, op["day"]), op["tel"], **kw)
            order = list(range(len(df)))
            random.Random(op["perm"]).shuffle(order)
            before = df.iloc[order].copy()
            more = {}
            if op["tags"] is not None:
                more["tags"] = tuple(op["tags"])
            if op["age"] is not None:
                more["max_simulation_age"] = op["age"]
            mine = before.copy()
            s = pi.select_latest_prenight_sim(mine, **more)
            if not mine.equals(before):
                return {"alien": "the caller's index changed"}
            return None if s is None else [str(s["visitseq_uuid"]), rowof(s)]
        if k in ("latest", "visits", "stats"):
            which = {"telescope": op["tel"]}
            if op["tags"] is not None:
                which["tags"] = tuple(op["tags"])
            if op["age"] is not None:
                which["max_simulation_age"] = op["age"]
            first, last = (None, None) if op["now"] else (op["day"], op["last"])
            if k == "stats":
                st = sa.fetch_sim_stats_for_night(form(op, op["day"]) if op["form"] != "date" else op["day"], **which, **kw)
                return {"n": st.get("nominal_visits"), "counts": {v: int(x["count"]) for v, x in st.items() if isinstance(x, dict)}}
            which["get_prenight_index_kwargs"] = kw
            if k == "latest":
                s = sa.find_latest_prenight_sim_for_nights(first, last, **which)
                return [str(s["visitseq_uuid"]), rowof(s)]
            from rubin_sim.maf.stackers import DayObsISOStacker

            more, args = {}, op.get("stk")
            if args:
                mine = [DayObsISOStacker()] if "iso" in args else []
                more = {"stackers": mine} if "arg" in args else {"get_sim_data_kwargs": {"stackers": mine}}
            v = sa.fetch_sim_for_nights(first, last, which_sim=which, **more)
            if args:
                if len(mine) != (1 if "iso" in args else 0) or list(more) != ["stackers" if "arg" in args else "get_sim_data_kwargs"]:
                    return {"alien": f"the caller's list of stackers became {mine}"}
                if "get_sim_data_kwargs" in more and (list(more["get_sim_data_kwargs"]) != ["stackers"] or more["get_sim_data_kwargs"]["stackers"] is not mine):
                    return {"alien": "the caller's arguments changed"}
            if ("day_obs_iso8601" in v.columns) != bool(args and "iso" in args):
                return {"alien": f"columns {sorted(v.columns)}"}
            return [int(i) for i in v["observationId"]]
        u = known(d).get(op["s"])
        if k == "simid":
            if u is None:
                return {"skip": True}
            # where the archive says it is
            made, i = state.setdefault("ids", {}).get(u, (None, None))
            if made is None:
                c = pg._real_connect(**pg.SERVER.dsn(), application_name="mon2")
                with c.cursor() as cur:
                    cur.execute(f"select sim_creation_day_obs, daily_id from {pg.SCHEMA}.simulations_extra where visitseq_uuid=%s", (u,))
                    made, i = cur.fetchone()
                c.close()
            i += op["off"]
            if op["direct"]:
                got = pi.get_sim_uuid(made, i)
            else:
                got = pi.get_sim_uuid(made, i, form(op, op["day"]), **kw)
            return {"made": made.isoformat(), "id": i, "u": str(got)}
        u = u or str(uuidlib.UUID(int=5))
        m = pi.get_sim_metadata(u if op["asstr"] else uuidlib.UUID(u), *([] if op["direct"] else [form(op, op["day"])]), **({} if op["direct"] else kw))
        return [str(m["visitseq_uuid"]), rowof(m)]

    def outer(state, op):
        try:
            return fn(state, op)
        except Exception as e:
            core.SIM.phase = "lost" if pg.lost(e) else "refused"
            raise

    return outer


# -- reference --------------------------------------------------------------------------------
class State:
    """What the database holds: simulations by number, with their tags."""

    def __init__(self):
        self.sims = {}


def night_utc(t):
    return dt.datetime.fromtimestamp(t - DAY / 2, UTC).date().isoformat()


def rows(scn, st, d):
    out = {}
    for i, x in st.items():
        s = scn["sims"][i]
        made = night_utc(x["t"])
        same = sorted(y["t"] for y in st.values() if night_utc(y["t"]) == made)
        out[x["u"]] = {"label": s["label"], "url": url(d, s["vis"]) if s["url"] else None, "tel": s["tel"], "days": s["days"], "t": ms(x["t"]), "ver": s["ver"],
                       "tags": sorted(x["tags"]), "id": same.index(x["t"]) + 1, "made": made, "files": {"opsim": url(d, s["vis"], s["ext"])} if x["opsim"] else {},
                       "parent": str(parent_of(i)) if "parent" in s else None, "conda": s.get("conda"), "_i": i,
                       "_stats": {day: 10 * i + k + 1 for k, day in enumerate(s.get("stats", [])) if day not in s["stats"][:k] and k < x["stats"]}}
    return out


def covering(rs, day, tel, now, age):
    return {u: r for u, r in rs.items() if r["tel"] == tel and "prenight" in r["tags"] and r["days"][0] is not None and r["days"][1] is not None
            and r["days"][0] <= day <= r["days"][1] and r["t"] >= now - age * DAY}


def pick(cands, tags, age, now):
    best = None
    for u, r in cands.items():
        if not set(tags) <= set(r["tags"]) or (now - r["t"]) // DAY > age:
            continue
        if best is None or r["t"] > cands[best]["t"]:
            best = u
    return best


def pub(r):
    return {k: v for k, v in r.items() if not k.startswith("_")}


def body(run, scn):
    d = run.dir
    for n in range(NVIS):
        with open(os.path.join(d, f"v{n}.h5"), "wb") as f:
            f.write(H5[n])
        with open(os.path.join(d, f"v{n}.db"), "wb") as f:
            f.write(DB[n])
    run.add("arch", writer(scn, d, {}), scn["clients"][0]["ops"])
    if scn["first"]:
        run.go()
    run.add("user", reader(scn, d), scn["clients"][1]["ops"])
    run.go()
    if run.violations:
        return
    hist = run.history
    times = {str(u): t.timestamp() for u, t in pg.SERVER.q(f"select visitseq_uuid, creation_time from {pg.SCHEMA}.simulations")}
    # the states the database and the bucket went through: (from event, to event, value)
    db, files = [(0, 0, {})], {}
    for h in hist:
        if h["c"] != "arch" or h["op"]["k"] == "wait":
            continue
        op = h["op"]
        if h["s"] != "ok":
            run.violation("archive-failed", f"{op} raised {h.get('e')}: {h.get('m')}")
            return
        if isinstance(h["v"], dict):
            continue
        cur = db[-1][2]
        span = (h["start"], h["end"])
        if op["k"] == "mkindex":
            rs = rows(scn, cur, d)
            files.setdefault((op["day"], op["tel"]), []).append((*span, [covering(rs, op["day"], op["tel"], t, 4000) for t in (h["t0"], h["t1"])]))
            continue
        s = scn["sims"][op["s"]]
        if op["k"] == "sim":
            u = h["v"]
            if u not in times:
                run.violation("lost", f"{op} returned {u}, which is not in the archive")
                return
            t = times[u]
            if "creation" in s:
                want = dt.datetime.fromisoformat(s["creation"] + "+00:00").timestamp()
                if abs(t - want) > 0.0005:
                    run.violation("creation-time", f"{s} was recorded with creation time {t}")
                    return
            x = {"u": u, "t": t, "tags": [], "opsim": False, "stats": 0}
            db.append((*span, {**cur, op["s"]: x}))
            for k in range(len(s.get("stats", []))):
                x = dict(x, stats=k + 1)
                db.append((*span, {**cur, op["s"]: x}))
            if s["opsim"]:
                x = dict(x, opsim=True)
                db.append((*span, {**cur, op["s"]: x}))
            db.append((*span, {**cur, op["s"]: dict(x, tags=list(s["tags"]))}))
        else:
            x = cur[op["s"]]
            tags = sorted(set(x["tags"]) | {op["t"]}) if op["k"] == "tag" else [y for y in x["tags"] if y != op["t"]]
            db.append((*span, {**cur, op["s"]: dict(x, tags=tags)}))

    def window(vers, h):
        """The versions current at some moment of the call h."""
        a, b = h["start"], h["end"]
        done = [i for i, v in enumerate(vers) if v[1] <= a]
        lo = max(done) if done else 0
        return [v[2] for i, v in enumerate(vers) if i >= lo and v[0] <= b]

    def indexes(h, day, tel):
        """(source, rows, now) of the index of a night during call h."""
        op = h["op"]
        out = []
        times = [h["t0"], h["t1"]]
        if op["db"]:
            for st in window(db, h):
                rs = rows(scn, st, d)
                out += [covering(rs, day, tel, t, 365) for t in times]
        if not op["db"] or "fault" in op:
            vers = [(0, 0, [{}])] + files.get((day, tel), [])
            for v in window(vers, h):
                out += v
        return uniq(out)

    for h in hist:
        op = h["op"]
        if h["c"] != "user" or op["k"] == "wait":
            continue
        k = op["k"]
        where = f"{h['c']}#{h['i']} { {a: b for a, b in op.items() if a != 'fault'} }" + (f" (fault {op['fault']})" if "fault" in op else "")
        bad = judge(run, scn, d, h, indexes, window, db, where)
        if bad:
            run.violation(*bad)
            return


def uniq(xs):
    out, seen = [], set()
    for x in xs:
        j = json.dumps(x, sort_keys=True)
        if j not in seen:
            seen.add(j)
            out.append(x)
    return out


def judge(run, scn, d, h, indexes, window, db, where):
    op, k = h["op"], h["op"]["k"]
    if h["s"] == "ok" and isinstance(h["v"], dict) and h["v"].get("skip"):
        return None
    got = f"raised {h['e']}: {h['m']}" if h["s"] == "exc" else f"returned {h.get('v')}"
    tel = op["tel"]
    if k == "index":
        exp = [{u: pub(r) for u, r in x.items()} for x in indexes(h, op["day"], tel)]
        if h["s"] != "ok" or h["v"] not in exp:
            return "index", f"{where} {got}; expected one of {json.dumps(exp)[:1500]}"
        return None
    if k in ("latest", "visits", "stats", "select"):
        tags = ["ideal", "nominal"] if op["tags"] is None else op["tags"]
        age = 2 if op["age"] is None else op["age"]
        exp = []
        alt = []
        for now in (h["t0"], h["t1"]):
            a, b = (night_utc(now), night_utc(now)) if op["now"] else (op["day"], op["last"] or op["day"])
            if k == "stats":
                b = a
            one = indexes(h, a, tel)
            two = indexes(h, b, tel) if b != a else [None]
            for x, y in itertools.product(one, two):
                c = x if y is None else {u: r for u, r in x.items() if u in y}
                u = pick(c, tags, age, now)
                exp.append([u, None if u is None else c[u], a, b])
        ok = False
        for u, r, a, b in uniq(exp):
            if k == "select":
                w = None if u is None else [u, pub(r)]
                ok |= h["s"] == "ok" and h["v"] == w
                alt.append(w)
            elif u is None:
                ok |= h["s"] == "exc" and h["e"] == "NoMatchingSimulationsFoundError"
                alt.append("nothing suitable")
            elif k == "latest":
                ok |= h["s"] == "ok" and h["v"] == [u, pub(r)]
                alt.append([u, pub(r)])
            elif k == "visits":
                if r["url"] is None and not r["files"]:
                    ok |= h["s"] == "exc" and h["e"] == "ValueError"
                    alt.append("no visits")
                else:
                    want = vids(scn["sims"][r["_i"]]["vis"], a, b)
                    ok |= h["s"] == "ok" and h["v"] == want
                    alt.append(want)
            else:
                n = len(vids(scn["sims"][r["_i"]]["vis"], a, a))
                wants = []
                if a in r["_stats"]:
                    wants.append({"n": r["_stats"][a], "counts": {"altitude": r["_stats"][a]}})
                if a not in r["_stats"] or not op["db"] or "fault" in op or r["t"] < h["t1"] - age * DAY:
                    # recorded statistics cannot be read, or there are none, or the query for them,
                    # which does not round ages down to whole days, passes over the simulation
                    if r["url"] is None:
                        wants.append({"n": None, "counts": {}})
                    elif n == 0:
                        wants.append({"n": 0, "counts": {}})
                    else:
                        cols = ("observationStartMJD", "observationId", "altitude", "azimuth")
                        wants.append({"n": n, "counts": {c: n for c in cols}})
                ok |= h["s"] == "ok" and h["v"] in wants
                alt += wants
        if not ok:
            return k, f"{where} {got}; expected one of {json.dumps(alt)[:1200]}"
        return None
    # look-ups by number or identifier
    exp = []
    src = []
    if op["direct"]:
        if not op["db"] or "fault" in op:
            if h["s"] == "exc" and (h["ph"] == "lost" or not op["db"]):
                return None
        src = [rows(scn, st, d) for st in window(db, h)]
    else:
        for x, y in itertools.product(indexes(h, op["day"], "simonyi"), indexes(h, op["day"], "auxtel")):
            src.append({**x, **y})
    if k == "simid":
        if h["s"] == "ok":
            made, i, u = h["v"]["made"], h["v"]["id"], h["v"]["u"]
            for rs in src:
                if u in rs and rs[u]["made"] == made and rs[u]["id"] == i:
                    return None
            return k, f"{where} {got}; expected a simulation that is number {i} of {made} in one of {json.dumps(src)[:1200]}"
        if h["e"] != "ValueError":
            return k, f"{where} {got}; expected an answer or ValueError"
        # absent? (the number asked for depends on the archive at that time)
        u = {x["u"] for st in window(db, h) for i, x in st.items() if i == op["s"]}
        if not u or op["off"]:
            return None
        if not any(not (u & set(rs)) for rs in src) and len(window(db, h)) == 1 and op["db"] and "fault" not in op:
            return k, f"{where} {got}; but it is in the index: {json.dumps(src)[:1200]}"
        if not op["db"] and all(u & set(rs) and fresh(rs, u, window(db, h)[-1], scn, d) for rs in src):
            return k, f"{where} {got}; but it is in the stored index: {json.dumps(src)[:1200]}"
        return None
    us = {x["u"] for st in window(db, h) for i, x in st.items() if i == op["s"]}
    if h["s"] == "ok":
        u, row = h["v"]
        if u in us and any(u in rs and pub(rs[u]) == row for rs in src):
            return None
        return k, f"{where} {got}; expected {us} as in one of {json.dumps(src)[:1200]}"
    if h["e"] != "ValueError":
        return k, f"{where} {got}; expected an answer or ValueError"
    if op["s"] is not None and us and all(us & set(rs) for rs in src) and op["s"] in window(db, h)[0]:
        return k, f"{where} {got}; but it is in the index: {json.dumps(src)[:1200]}"
    return None


def fresh(rs, us, st, scn, d):
    """Does the index number this simulation as the database does now?"""
    now = rows(scn, st, d)
    return all(u in now and rs[u]["id"] == now[u]["id"] for u in us if u in rs)


def run(scn, ctx):
    run = core.Run(scn, ctx.base)
    try:
        pg.attach(run)
        if not run.violations:
            body(run, scn)
        return core.result_of(run)
    finally:
        run.cleanup()
