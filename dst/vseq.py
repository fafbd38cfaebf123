"""Visit sequence metadata archive: operations, sequential reference model and
linearisability check shared by C10-C12."""

import datetime as dt
import hashlib
import json
import uuid as uuidlib
import warnings

from . import core, pg

UTC = dt.timezone.utc
TABLES = ("visitseq", "simulations", "completed", "mixedvisitseq")
BASE = ("visitseq_uuid", "visitseq_sha256", "visitseq_label", "visitseq_url", "telescope", "first_day_obs", "last_day_obs", "creation_time")
EXTRA = {
    "visitseq": (),
    "simulations": ("scheduler_version", "config_url", "conda_env_sha256", "parent_visitseq_uuid", "sim_runner_kwargs", "parent_last_day_obs"),
    "completed": ("query",),
    "mixedvisitseq": ("last_early_day_obs", "first_late_day_obs", "early_parent_uuid", "late_parent_uuid"),
}
STATCOLS = ("count", "mean", "std", "min", "p05", "q1", "median", "q3", "p95", "max")


def warm():
    pg.install()
    import astropy.time  # noqa: F401
    import pandas as pd

    from rubin_sim.sim_archive import vseqmetadata  # noqa: F401

    pd.DataFrame({"a": [1.0]}).to_records()
    astropy.time.Time.now().utc.datetime


def jkey(x):
    return json.dumps(x, sort_keys=True)


# -- values ----------------------------------------------------------------------
def visits(n):
    """A small table of visits; n selects its content."""
    import numpy as np
    import pandas as pd

    if n >= 12:  # large tables that differ in their last visit only
        d = {"s_ra": np.arange(1200) * 0.5, "observationId": np.arange(1200)}
        d["observationId"][-1] = n
        return pd.DataFrame(d)
    k = 1 + (n // 3) % 3
    d = {"s_ra": np.arange(k) * 1.5 + n // 2, "observationId": np.arange(k) + 7 * (n // 2)}
    if n % 3:
        # fresh strings: equal content, different objects
        d["band"] = ["".join(["b", "ugrizy"[(n + i) % 6]]) for i in range(k)]
    if n % 2:
        d["flush"] = np.arange(k)[::-1] + n
    return pd.DataFrame(d)


def visits_sha(n):
    """The archive's hash of that table: whatever it is, it must be the same
    in every process, and different for different tables."""
    from rubin_sim.sim_archive.vseqmetadata import compute_visits_sha256

    if n not in _sha:
        _sha[n] = compute_visits_sha256(visits(n)).hex()
    return _sha[n]


_sha = {}
NVIS = 14


def check_sha(run):
    h = {}
    for n in range(NVIS):
        x = visits_sha(n)
        if x in h:
            run.violation("visits-hash", f"tables of visits {h[x]} and {n} differ but have the same hash {x}")
        h[x] = n


def iso(x):
    """Canonical text of an instant (microseconds, UTC)."""
    if x is None:
        return None
    if isinstance(x, str):
        x = dt.datetime.fromisoformat(x.replace(" ", "T") if "T" not in x else x)
    if x.tzinfo is None:
        return "naive " + x.isoformat(timespec="microseconds")
    return dt.datetime(x.year, x.month, x.day, x.hour, x.minute, x.second, x.microsecond, x.tzinfo).astimezone(UTC).isoformat(timespec="microseconds")


def canon(v):
    import numpy as np
    import pandas as pd

    if v is None or v is pd.NaT or v is pd.NA:
        return None
    if isinstance(v, (bool, np.bool_)):
        return bool(v)
    if isinstance(v, (int, np.integer)):
        return int(v)
    if isinstance(v, (float, np.floating)):
        return None if v != v else float(v)
    if isinstance(v, str):
        return v
    if isinstance(v, uuidlib.UUID):
        return str(v)
    if isinstance(v, (bytes, bytearray)):
        return bytes(v).hex()
    if isinstance(v, memoryview):
        return v.tobytes().hex()
    if isinstance(v, dt.datetime):
        return iso(v)
    if isinstance(v, dt.date):
        return v.isoformat()
    if isinstance(v, dict):
        return {str(k): canon(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [canon(x) for x in v]
    return repr(v)


def day(x):
    """Scenario's day of observation -> argument in one of the accepted forms."""
    if x is None:
        return None
    form, s = x
    if form == "str":
        return s
    d = dt.date.fromisoformat(s)
    if form == "int":
        return d.year * 10000 + d.month * 100 + d.day
    if form == "date":
        return d
    if form == "datetime":
        return dt.datetime(d.year, d.month, d.day, 7)
    if form == "time":
        from astropy.time import Time

        return Time(s + "T20:00:00")
    if form == "time2":  # after midnight (UTC) of the same night
        from astropy.time import Time

        return Time((d + dt.timedelta(days=1)).isoformat() + "T07:30:00")
    return s


# -- operations (inside a simulated process) ------------------------------------------
class Skip(Exception):
    pass


def make(state):
    from rubin_sim.sim_archive.vseqmetadata import VisitSequenceArchiveMetadata

    state["md"] = VisitSequenceArchiveMetadata(pg.SERVER.dsn(), pg.SCHEMA)


def frame_rows(df):
    return [{c: canon(v) for c, v in zip(df.columns, r)} for r in df.itertuples(index=False, name=None)]


def stats_frame(rows):
    import pandas as pd

    return pd.DataFrame([dict(r, day_obs=dt.date.fromisoformat(r["day_obs"])) for r in rows])


def client(init):
    def ref(state, r):
        if r is None:
            return None
        if r[0] == "init":
            return uuidlib.UUID(init[r[1]])
        if r[0] == "own":
            if r[1] not in state["own"]:
                raise Skip()
            return state["own"][r[1]]
        return uuidlib.UUID(int=0x1234 + r[1])

    def fn(state, op):
        warnings.simplefilter("ignore")
        import logging

        logging.disable(logging.CRITICAL)
        if op["k"] == "wait":
            core.SIM.sleep(op["t"])
            return None
        state.setdefault("own", {})
        try:
            if "u" in op:
                u = ref(state, op["u"])
                core.SIM.note("unknown_ref", int(op["u"][0] == "none"))
            else:
                u = None
            if "md" not in state:
                make(state)
            v = perform(state["md"], op, u, lambda r: ref(state, r))
        except Skip:
            return {"skip": True}
        except Exception as e:
            core.SIM.phase = "lost" if pg.lost(e) else "refused"
            raise
        if op["k"] == "record":
            state["own"][op["n"]] = uuidlib.UUID(v)
        return {"u": None if u is None else str(u), "r": v}

    return fn


def record_kwargs(op, ref):
    from astropy.time import Time

    k = {}
    for a in ("label", "telescope", "url", "scheduler_version", "config_url", "query"):
        if a in op:
            k[a] = op[a]
    for a in ("first_day_obs", "last_day_obs", "last_early_day_obs", "first_late_day_obs", "parent_last_day_obs"):
        if a in op:
            k[a] = day(op[a])
    if "creation" in op:
        t = Time(op["creation"], scale="utc")
        how = op.get("how")  # the same instant in another form
        if how in ("tai", "tt"):
            t = getattr(t, how)
        elif how == "offset":
            z = dt.timezone(dt.timedelta(hours=op["n"] % 25 - 12, minutes=30))
            t = Time(dt.datetime.fromisoformat(op["creation"] + "+00:00").astimezone(z))
        k["creation_time"] = t
    if "conda" in op:
        k["conda_env_sha256"] = bytes.fromhex(op["conda"])
    if "kwargs" in op:
        k["sim_runner_kwargs"] = {a: (1 + 2j if b == "<object>" else b) for a, b in op["kwargs"].items()}
    for a in ("parent_visitseq_uuid", "early_parent_uuid", "late_parent_uuid"):
        if a in op:
            k[a] = op[a] if isinstance(op[a], str) else ref(op[a])
    return k


def perform(md, op, u, ref):
    from psycopg2 import sql

    k = op["k"]
    if k == "record":
        kw = record_kwargs(op, ref)
        v = visits(op["vis"])
        t = op["table"]
        if t == "simulations":
            r = md.record_simulation_metadata(v, **kw)
        elif t == "completed":
            r = md.record_completed_metadata(v, **kw)
        elif t == "mixedvisitseq":
            r = md.record_mixed_metadata(v, **kw)
        else:
            r = md.record_visitseq_metadata(v, **kw)
        if not isinstance(r, uuidlib.UUID):
            raise TypeError(f"recording returned {r!r}")
        return str(r)
    if k == "meta":
        s = md.get_visitseq_metadata(u, op["table"])
        return {str(c): canon(s[c]) for c in s.index}
    if k == "seturl":
        return canon(md.set_visitseq_url(u, op["url"]))
    if k == "geturl":
        return canon(md.get_visitseq_url(u))
    if k == "update":
        return canon(md.update_visitseq_metadata(u, op["field"], op["value"]))
    if k == "tag":
        return canon(md.tag(u, *op["tags"]))
    if k == "untag":
        return canon(md.untag(u, op["tag"]))
    if k == "tagged":
        return canon(md.is_tagged(u, op["tag"]))
    if k == "comment":
        return canon(md.comment(u, op["text"], *([op["author"]] if "author" in op else [])))
    if k == "comments":
        return sorted(frame_rows(md.get_comments(u)), key=jkey)
    if k == "file":
        loc = op["url"]
        if op.get("rp"):
            from lsst.resources import ResourcePath

            loc = ResourcePath(loc)
        elif op.get("bad"):
            loc = 17
        kw = {"update": op["update"]} if op.get("update") is not None else {}
        return canon(md.register_file(u, op["type"], bytes.fromhex(op["sha"]), loc, **kw))
    if k == "fileurl":
        return canon(md.get_file_url(u, op["type"]))
    if k == "filesha":
        return canon(md.get_file_sha256(u, op["type"]))
    if k == "stats":
        return canon(md.insert_nightly_stats(u, stats_frame(op["rows"])))
    if k == "getstats":
        return sorted(frame_rows(md.query_nightly_stats(u)), key=jkey)
    if k == "conda":
        return canon(md.record_conda_env(bytes.fromhex(op["hash"]), op["json"]))
    if k == "condasaved":
        return canon(md.conda_env_is_saved(bytes.fromhex(op["hash"])))
    if k == "software":
        df = md.get_software_versions_for_sim(u, *([op["packages"]] if op["packages"] is not None else []))
        return sorted([[str(i), canon(r["package_version"]), canon(r["channel"])] for i, r in df.iterrows()])
    if k == "sims":
        kw = {a: op[a] for a in ("telescope", "max_simulation_age") if a in op}
        if "tags" in op:
            kw["tags"] = tuple(op["tags"])
        for a in ("first_day_obs", "last_day_obs"):
            if a in op:
                kw[a] = day(op[a])
        return sorted(frame_rows(md.sims_on_nights(**kw)), key=lambda r: r["visitseq_uuid"])
    if k == "simstats":
        kw = {a: op[a] for a in ("telescope", "max_simulation_age") if a in op}
        if "tags" in op:
            kw["tags"] = tuple(op["tags"])
        if "day_obs" in op:
            kw["day_obs"] = day(op["day_obs"])
        return sorted(frame_rows(md.sims_on_night_with_stats(**kw)), key=lambda r: r["visitseq_uuid"])
    if k == "simid":
        return canon(md.get_sim_uuid(day(op["date"]), op["id"]))
    if k == "yaml":
        import yaml

        return canon(yaml.safe_load(md.sim_metadata_yaml(u)))
    if k == "ro":
        # a query that would change something, without asking for a commit
        q = sql.SQL("UPDATE {}.visitseq SET visitseq_url='sneaked' RETURNING 1").format(sql.Identifier(pg.SCHEMA))
        md.query(q, {})
        return None
    raise AssertionError(k)


def make_init(specs, now):
    """Record the sequences every client knows (in a process of its own)."""
    md = {}
    make(md)
    out = []
    for i, s in enumerate(specs):
        pg.SERVER.clock(now - 1 + i / 100)
        out.append(perform(md["md"], s, None, lambda r: uuidlib.UUID(out[r[1]]) if r[0] == "init" else uuidlib.UUID(int=0x1234 + r[1])))
    return out


# -- reference model ---------------------------------------------------------------------
class Refused(Exception):
    """The operation must raise (one of the named exceptions, if any)."""

    def __init__(self, *names):
        self.names = names


class Model:
    """One sequential archive.  States are plain dicts, copied on write."""

    nights = True

    def __init__(self, created, ctimes, now):
        self.created = created  # label -> (uuid, creation time) as the archive chose them
        self.ctimes = ctimes  # call that made a comment -> time
        self.now = now

    def empty(self):
        return {"seq": {}, "tags": {}, "com": {}, "files": {}, "stats": {}, "conda": {}}

    @staticmethod
    def key(s):
        return json.dumps(s, sort_keys=True)

    def put(self, s, part, k, v):
        s = dict(s)
        s[part] = dict(s[part])
        if v is None:
            s[part].pop(k, None)
        else:
            s[part][k] = v
        return s

    # -- derived views ------------------------------------------------------
    def night(self, t):
        return (dt.datetime.fromisoformat(t) - dt.timedelta(hours=12)).date().isoformat()

    def extra(self, s, u):
        row = s["seq"][u]
        n = self.night(row["creation_time"])
        same = sorted(x["creation_time"] for x in s["seq"].values() if x["_t"] == "simulations" and self.night(x["creation_time"]) == n)
        d = {c: row[c] for c in BASE + EXTRA["simulations"] if c != "visitseq_sha256"}
        if self.nights:
            d["sim_creation_day_obs"] = n
            d["daily_id"] = same.index(row["creation_time"]) + 1
        d["tags"] = sorted(s["tags"].get(u, []))
        d["comments"] = {t: c for t, a, c in s["com"].get(u, [])}
        d["files"] = {f: x[1] for f, x in s["files"].get(u, {}).items()}
        return d

    def dates(self, op, names):
        for a in names:
            if a in op and op[a] is not None:
                try:
                    d = dt.date.fromisoformat(op[a][1])
                except ValueError:
                    raise Refused()
                del d

    # -- one operation: returns (new state, expected result) ------------------
    def apply(self, s, op, u, rec_u=None):
        k = op["k"]
        if k == "record":
            t = op["table"]
            if op.get("bad"):
                raise Refused()
            u, created = self.created.get(op["label"], (None, None))
            if u is None:
                return s, None  # acknowledged but nowhere to be found: reported apart
            row = {c: None for c in BASE + EXTRA[t]}
            row.update(_t=t, visitseq_uuid=u, visitseq_sha256=visits_sha(op["vis"]), visitseq_label=op["label"],
                       visitseq_url=op.get("url"), telescope=op.get("telescope", "simonyi"), creation_time=created)
            for a in ("first_day_obs", "last_day_obs", "last_early_day_obs", "first_late_day_obs", "parent_last_day_obs"):
                if a in op and a in row:
                    row[a] = op[a][1]
            for a in ("scheduler_version", "config_url", "query"):
                if a in op and a in row:
                    row[a] = op[a]
            if "conda" in op:
                row["conda_env_sha256"] = op["conda"]
            if "kwargs" in op:
                row["sim_runner_kwargs"] = op["kwargs"]
            for a in ("parent_visitseq_uuid", "early_parent_uuid", "late_parent_uuid"):
                if a in op:
                    row[a] = op["_" + a]
            return self.put(s, "seq", u, row), u
        row = s["seq"].get(u) if u is not None else None
        if k in ("seturl", "update"):
            if row is None:
                raise Refused("ValueError")
            f, v = ("visitseq_url", op["url"]) if k == "seturl" else (op["field"], op["value"])
            if f not in row or f == "_t" or op.get("bad"):
                raise Refused()
            return self.put(s, "seq", u, dict(row, **{f: v})), None
        if k == "geturl":
            if row is None:
                raise Refused("ValueError")
            return s, row["visitseq_url"]
        if k == "meta":
            t = op["table"]
            if t not in TABLES + ("simulations_extra",):
                raise Refused("ValueError")
            if row is None:
                raise Refused()
            if t == "visitseq":
                return s, {c: row[c] for c in BASE}
            if t == "simulations_extra":
                if row["_t"] != "simulations":
                    raise Refused()
                return s, self.extra(s, u)
            if row["_t"] != t:
                raise Refused()
            return s, {c: row[c] for c in BASE + EXTRA[t]}
        if k == "tag":
            if op.get("bad"):
                raise Refused()
            have = s["tags"].get(u, [])
            return self.put(s, "tags", u, sorted(set(have) | set(op["tags"]))), None
        if k == "untag":
            have = s["tags"].get(u, [])
            if op["tag"] not in have:
                raise Refused("ValueError")
            return self.put(s, "tags", u, [x for x in have if x != op["tag"]]), None
        if k == "tagged":
            return s, op["tag"] in s["tags"].get(u, [])
        if k == "comment":
            if op.get("bad"):
                raise Refused()
            c = s["com"].get(u, []) + [[self.ctimes.get(op["_id"]), op.get("author"), op["text"]]]
            return self.put(s, "com", u, sorted(c, key=jkey)), None
        if k == "comments":
            return s, sorted(({"visitseq_uuid": u, "comment_time": t, "author": a, "comment": c} for t, a, c in s["com"].get(u, [])), key=jkey)
        if k == "file":
            if op["type"] == "visits" or op.get("bad"):
                raise Refused("ValueError", "TypeError")
            f = s["files"].get(u, {})
            if op["type"] in f and not op.get("update"):
                raise Refused("ValueError")
            return self.put(s, "files", u, dict(f, **{op["type"]: [op["sha"], op["url"]]})), None
        if k in ("fileurl", "filesha"):
            if op["type"] == "visits" and k == "fileurl":
                if row is None:
                    raise Refused("ValueError")
                return s, row["visitseq_url"]
            f = s["files"].get(u, {})
            if op["type"] not in f:
                raise Refused("ValueError")
            return s, f[op["type"]][1 if k == "fileurl" else 0]
        if k == "stats":
            have = dict(s["stats"].get(u, {}))
            for r in op["rows"]:
                key = json.dumps([r["day_obs"], r["value_name"], r["accumulated"]])
                if key in have or op.get("bad"):
                    raise Refused()
                have[key] = dict({c: None for c in STATCOLS}, **r)
            return self.put(s, "stats", u, have), None
        if k == "getstats":
            return s, sorted((dict(r, visitseq_uuid=u) for r in s["stats"].get(u, {}).values()), key=jkey)
        if k == "conda":
            if op["hash"] in s["conda"]:
                return s, op["hash"]
            return self.put(s, "conda", op["hash"], op["json"]), op["hash"]
        if k == "condasaved":
            return s, op["hash"] in s["conda"]
        if k == "software":
            out = []
            if row is not None and row["_t"] == "simulations" and row["conda_env_sha256"] in s["conda"]:
                out = [[p["name"], p["version"], p["channel"]] for p in json.loads(s["conda"][row["conda_env_sha256"]])]
                if op["packages"] is not None:
                    out = [p for p in out if p[0] in op["packages"]]
            return s, sorted(out)
        if k in ("sims", "simstats"):
            if k == "sims":
                a = op["first_day_obs"][1] if "first_day_obs" in op else None
                b = op["last_day_obs"][1] if "last_day_obs" in op else a
            else:
                a = b = op["day_obs"][1] if "day_obs" in op else None
            if a is None:
                a = self.night(iso(dt.datetime.fromtimestamp(op.get("_now", self.now) + op.get("_skew", 0.0), UTC)))
                b = b or a
            lim = dt.datetime.fromtimestamp(op.get("_now", self.now), UTC) - dt.timedelta(days=op.get("max_simulation_age", 2))
            need = set(op.get("tags", ("prenight", "ideal", "nominal")))
            out = []
            for x, r in s["seq"].items():
                if r["_t"] != "simulations" or r["telescope"] != op.get("telescope", "simonyi"):
                    continue
                if r["first_day_obs"] is None or r["last_day_obs"] is None:
                    continue
                if not (r["first_day_obs"] <= a <= r["last_day_obs"] and r["first_day_obs"] <= b <= r["last_day_obs"]):
                    continue
                if not need <= set(s["tags"].get(x, [])):
                    continue
                if dt.datetime.fromisoformat(r["creation_time"]) < lim:
                    continue
                d = self.extra(s, x)
                if k == "simstats":
                    st = {q["value_name"]: {c: v for c, v in q.items() if c not in ("value_name", "visitseq_uuid", "day_obs")}
                          for q in s["stats"].get(x, {}).values() if q["day_obs"] == a}
                    d["stats"] = st or None
                out.append(d)
            return s, sorted(out, key=lambda r: r["visitseq_uuid"])
        if k == "simid":
            for x, r in s["seq"].items():
                if r["_t"] == "simulations":
                    e = self.extra(s, x)
                    if e["sim_creation_day_obs"] == op["date"][1] and e["daily_id"] == int(op["id"]):
                        return s, x
            raise Refused("ValueError")
        if k == "yaml":
            if row is None or row["_t"] != "simulations":
                raise Refused()
            e = self.extra(s, u)
            return s, {"uuid": u, "label": e["visitseq_label"], "telescope": e["telescope"], "tags": e["tags"],
                       "creation_time": e["creation_time"], "scheduler_version": e["scheduler_version"],
                       "files": e["files"]}
        if k == "ro":
            return s, None
        raise AssertionError(k)


def norm(op, v):
    """Results in the model's terms."""
    k = op["k"]
    if v is None:
        return None
    if k in ("sims", "simstats", "meta"):
        rows = [v] if k == "meta" else v
        out = []
        for r in rows:
            r = dict(r)
            if isinstance(r.get("comments"), dict):
                r["comments"] = {iso(t): c for t, c in r["comments"].items()}
            if isinstance(r.get("tags"), list):
                r["tags"] = sorted(r["tags"])
            out.append(r)
        return out[0] if k == "meta" else out
    if k == "yaml":
        d = {c: v.get(c) for c in ("uuid", "label", "telescope", "tags", "scheduler_version")}
        d["tags"] = sorted(d["tags"] or [])
        d["creation_time"] = iso(v.get("creation_time"))
        d["files"] = {f: x["url"] for f, x in (v.get("files") or {}).items()}
        return d
    return v


def accepts(op, want, got):
    if op["k"] in ("sims", "simstats", "meta") and isinstance(want, (dict, list)):
        # an object that cannot be written as JSON is stored as its description
        w = [want] if isinstance(want, dict) else want
        g = [got] if isinstance(got, dict) else got
        if not isinstance(g, list) or len(w) != len(g):
            return False
        for a, b in zip(w, g):
            a, b = dict(a), dict(b)
            ka, kb = a.pop("sim_runner_kwargs", None), b.pop("sim_runner_kwargs", None)
            if a != b or not same_kwargs(ka, kb):
                return False
        return True
    return want == got


def same_kwargs(a, b):
    if a is None or b is None:
        return a is None and b is None
    if set(a) != set(b):
        return False
    for k in a:
        if a[k] == "<object>" or len(json.dumps(a[k])) > 4096:
            if not (isinstance(b[k], list) and len(b[k]) == 2 and len(b[k][1]) <= 4096):
                return False
        elif a[k] != b[k]:
            return False
    return True


# -- judging a history ----------------------------------------------------------------------
def resolve_refs(h, init, owns):
    """uuid an operation addressed, also for operations that did not return."""
    op = h["op"]

    def look(r):
        if r[0] == "init":
            return init[r[1]]
        if r[0] == "own":
            return owns.get((h["c"], r[1]))
        return str(uuidlib.UUID(int=0x1234 + r[1]))

    u = look(op["u"]) if "u" in op else None
    op2 = dict(op)
    for a in ("parent_visitseq_uuid", "early_parent_uuid", "late_parent_uuid"):
        if a in op:
            op2["_" + a] = op[a] if isinstance(op[a], str) else look(op[a])
    return op2, u


class Op:
    __slots__ = ("op", "u", "start", "end", "must", "res", "exc", "msg", "c", "i", "t1")


def judge(run, init, init_ops, dump, maybe=None, budget=400000, skews=None, nights=True):
    """Is the history (and the final state) explained by a sequential archive?"""
    hist = [h for h in run.history if h["op"]["k"] != "wait"]
    # the label of a record may have been changed by an update: follow uuids
    # of acknowledged records, labels otherwise
    byuuid, bylabel = {}, {}
    for t in TABLES:
        for r in dump[t]:
            byuuid[str(r["visitseq_uuid"])] = (t, r)
            bylabel.setdefault(r["visitseq_label"], []).append(str(r["visitseq_uuid"]))
    created = {}
    owns = {}
    for i, s in enumerate(init_ops):
        created[s["label"]] = (init[i], iso(byuuid[init[i]][1]["creation_time"]) if init[i] in byuuid else None)
    for h in hist:
        op = h["op"]
        if op["k"] != "record" or op.get("bad"):
            continue
        label = op["label"]
        if h["s"] == "ok" and not h["v"].get("skip"):
            u = h["v"]["r"]
            owns[(h["c"], op["n"])] = u
            if u not in byuuid:
                run.violation("lost-record", f"{op} returned {u}, which is not in the archive")
                return
        else:
            us = [x for x in bylabel.get(label, []) if x not in init]
            if len(us) > 1:
                run.violation("duplicate", f"{len(us)} sequences labelled {label!r}")
                return
            u = us[0] if us else None
        if u is not None:
            ct = byuuid[u][1]["creation_time"]
            if "creation" in op:
                want = iso(op["creation"] + "+00:00")
                if iso(ct) != want:
                    run.violation("creation-time", f"{op} was stored with creation time {iso(ct)}, not {want}")
                    return
            else:
                t = ct.timestamp()
                lo, hi = h["t0"] - 0.0015, (h.get("t1") or run.now) + 0.0015
                if not lo <= t <= hi:
                    run.violation("creation-time", f"{op} executed between {lo} and {hi} was stored with creation time {t}")
                    return
            created[label] = (u, iso(ct))
    known = {u for u, _ in created.values()}
    for u in byuuid:
        if u not in known:
            run.violation("phantom", f"sequence {u} ({byuuid[u][1]['visitseq_label']!r}) was recorded by nobody or by a refused call")
            return
    # comments: the time the archive gave to each, matched through the period of the call
    ctimes = {}
    rows = {}
    for r in dump["comments"]:
        rows.setdefault((str(r["visitseq_uuid"]), r["comment"]), []).append(iso(r["comment_time"]))
    for h in hist:
        op = h["op"]
        if op["k"] != "comment" or op.get("bad") or (h["s"] == "ok" and h["v"].get("skip")):
            continue
        _, u = resolve_refs(h, init, owns)
        for t in rows.get((u, op["text"]), []):
            k = (skews or {}).get(h["c"], 0.0)  # comments are stamped by the client
            if h["t0"] - 0.0015 <= dt.datetime.fromisoformat(t).timestamp() - k <= (h.get("t1") or run.now) + 0.0015:
                ctimes[(h["c"], h["i"])] = t
                rows[(u, op["text"])].remove(t)
                break
        else:
            if h["s"] == "ok":
                run.violation("comment-time", f"{op} executed at {h['t0']}..{h.get('t1')}: no comment with that time is stored (times: {rows.get((u, op['text']))})")
                return
    for k, v in rows.items():
        if v:
            run.violation("duplicate", f"comment {k[1]!r} is there more often than it was made: {v}")
            return
    model = Model(created, ctimes, run.t_first)
    model.nights = nights
    s = model.empty()
    for i, o in enumerate(init_ops):
        op2 = dict(o)
        for a in ("parent_visitseq_uuid", "early_parent_uuid", "late_parent_uuid"):
            if a in o:
                op2["_" + a] = init[o[a][1]] if o[a][0] == "init" else str(uuidlib.UUID(int=0x1234 + o[a][1]))
        s, _ = model.apply(s, op2, None)
    ops = []
    for h in hist:
        if h["s"] == "ok" and h["v"].get("skip"):
            continue
        o = Op()
        o.op, o.u = resolve_refs(h, init, owns)
        o.op["_id"] = (h["c"], h["i"])
        o.op["_skew"] = (skews or {}).get(h["c"], 0.0)
        o.t1 = h.get("t1")
        if h.get("t0") is not None:
            o.op["_now"] = h["t0"]
        if "u" in o.op and o.u is None:
            continue  # a skipped operation that never ended
        o.start, o.end, o.c, o.i = h["start"], h.get("end") or 10**9, h["c"], h["i"]
        o.exc = o.msg = None
        if h["s"] == "ok":
            o.must, o.res = "ok", norm(o.op, h["v"]["r"])
            if not nights:
                for d in o.res if isinstance(o.res, list) else [o.res]:
                    if isinstance(d, dict) and "daily_id" in d:
                        del d["daily_id"], d["sim_creation_day_obs"]
        elif h["s"] == "exc" and not (maybe and maybe(h)):
            o.must, o.res, o.exc, o.msg = "exc", None, h["e"], h["m"]
        else:
            o.must, o.res = "maybe", None
            o.exc = h.get("e")
            o.end = h.get("end") or 10**9
        ops.append(o)
    final = final_state(dump)
    ok, best = linearise(model, s, ops, final, budget)
    if ok is None:
        run.notes["search_budget"] = run.notes.get("search_budget", 0) + 1
        return
    if not ok:
        run.violation("not-sequential", explain(model, s, ops, final, best))


def final_state(dump):
    """The dumped tables in the model's terms."""
    s = {"seq": {}, "tags": {}, "com": {}, "files": {}, "stats": {}, "conda": {}}
    for t in TABLES:
        for r in dump[t]:
            u = str(r["visitseq_uuid"])
            s["seq"][u] = dict({c: canon(r[c]) for c in BASE + EXTRA[t]}, _t=t)
    for r in dump["tags"]:
        s["tags"].setdefault(str(r["visitseq_uuid"]), set()).add(r["tag"])
    s["tags"] = {u: sorted(x) for u, x in s["tags"].items()}
    for r in dump["comments"]:
        s["com"].setdefault(str(r["visitseq_uuid"]), []).append([iso(r["comment_time"]), r["author"], r["comment"]])
    s["com"] = {u: sorted(x, key=jkey) for u, x in s["com"].items()}
    for r in dump["files"]:
        s["files"].setdefault(str(r["visitseq_uuid"]), {})[r["file_type"]] = [canon(r["file_sha256"]), r["file_url"]]
    for r in dump["nightly_stats"]:
        k = json.dumps([r["day_obs"].isoformat(), r["value_name"], r["accumulated"]])
        s["stats"].setdefault(str(r["visitseq_uuid"]), {})[k] = {c: canon(v) for c, v in r.items() if c != "visitseq_uuid"}
    for r in dump["conda_env"]:
        s["conda"][canon(r["conda_env_hash"])] = r["conda_env"]
    return s


def diff_state(a, b):
    """None if model state a equals dumped state b, else the difference."""
    for u in sorted(set(a["seq"]) | set(b["seq"])):
        x, y = a["seq"].get(u), b["seq"].get(u)
        if x is None or y is None:
            return f"sequence {u}: expected {x}, archive has {y}"
        x, y = dict(x), dict(y)
        if not same_kwargs(x.pop("sim_runner_kwargs", None), y.pop("sim_runner_kwargs", None)):
            return f"sequence {u}: sim_runner_kwargs differ"
        if x != y:
            return f"sequence {u}: " + ", ".join(f"{c}: expected {x.get(c)!r}, archive has {y.get(c)!r}" for c in sorted(set(x) | set(y)) if x.get(c) != y.get(c))
    for part in ("tags", "com", "files", "stats"):
        for u in sorted(set(a[part]) | set(b[part])):
            x, y = a[part].get(u) or None, b[part].get(u) or None
            if x != y:
                return f"{part} of {u}: expected {x}, archive has {y}"
    x = {k: json.loads(v) for k, v in a["conda"].items()}
    if x != b["conda"]:
        return f"conda environments: expected {x}, archive has {b['conda']}"
    return None


def step(model, s, o):
    """(new state) if operation o can take effect now with its outcome; list of possibilities."""
    try:
        s2, want = model.apply(s, o.op, o.u)
        refused = None
    except Refused as e:
        refused = e
    if o.must == "ok":
        if refused is not None:
            return []
        if not accepts(o.op, want, o.res):
            # the call took time, and an age limit or a change of night may have passed meanwhile
            if o.op["k"] not in ("sims", "simstats") or o.t1 is None or not accepts(o.op, model.apply(s, dict(o.op, _now=o.t1), o.u)[1], o.res):
                return []
        return [s2]
    if o.must == "exc":
        if refused is None:
            return []
        if refused.names and o.exc not in refused.names:
            return []
        return [s]
    # fault or crash: nothing or everything
    if refused is not None or s2 is s:
        return [s]
    return [s, s2]


def linearise(model, s0, ops, final, budget):
    n = len(ops)
    order = sorted(range(n), key=lambda i: ops[i].start)
    seen = set()
    stack = [(frozenset(), s0)]
    cost = 0
    best = (-1, None, None)
    while stack:
        done, s = stack.pop()
        k = (done, Model.key(s))
        if k in seen:
            continue
        seen.add(k)
        cost += 1
        if cost > budget:
            return None, best
        if len(done) > best[0]:
            best = (len(done), done, s)
        if len(done) == n:
            if diff_state(s, final) is None:
                return True, best
            continue
        limit = min(ops[i].end for i in range(n) if i not in done)
        for i in reversed(order):
            if i in done or ops[i].start > limit:
                continue
            for s2 in step(model, s, ops[i]):
                stack.append((done | {i}, s2))
    return False, best


def explain(model, s0, ops, final, best):
    n, done, s = best
    if n == len(ops):
        return f"all {n} results fit, but the final archive does not: {diff_state(s, final)}"
    out = []
    limit = min(ops[i].end for i in range(len(ops)) if i not in done)
    for i in range(len(ops)):
        if i in done or ops[i].start > limit:
            continue
        o = ops[i]
        try:
            _, want = model.apply(s, o.op, o.u)
            want = repr(want)
        except Refused as e:
            want = f"refusal {e.names}"
        got = repr(o.res) if o.must == "ok" else f"{o.exc}: {o.msg}"
        out.append(f"{o.c}#{o.i} {({k: v for k, v in o.op.items() if k != 'fault'})} expected {want[:500]} got {got[:500]}")
    return f"no sequential order explains the results (best explains {n} of {len(ops)}); then: " + " | ".join(out)
