"""ResultsDb: client operations, reference model and history checker."""

import math
import random
import re
import warnings

import numpy as np

from . import core, sqlseam

NAMES = ["Nvisits", "CoaddM5", "Med Air_mass_2", "N visits", "N_visits"]
SLICERS = ["HealpixSlicer", "UniSlicer", "OneDSlicer", "One_Slicer"]
RUNS = ["baseline_v1", "baseline_v1.2", None]
CONSTR = ['band = "r"', "night < 365", "", None]
LABELS = ["r band", "all bands", "r_band", None, "", "r band and a long explanation of it", "r band and a long explanation of that"]
STATS = ["Mean", "Median", "Identity", "Rms", "Count", "N(+3Sigma)"]
PTYPES = ["SkyMap", "Histogram", "powerSpectrum", "skymap"]


def gen_keys(r, n):
    keys = []
    while len(keys) < n:
        k = [r.choice(NAMES), r.choice(SLICERS), r.choice(RUNS), r.choice(CONSTR), r.choice(LABELS)]
        if norm_key(k) not in [norm_key(x) for x in keys]:
            keys.append(k)
    return keys


def norm_key(k):
    return [k[0], k[1]] + ["NULL" if x is None else x for x in k[2:]]


def gen_value(r):
    return r.choice([r.uniform(-1e6, 1e6), r.randrange(-5, 1000), 0.0, float("nan"), float("inf"), 1e-300,
                     float(r.randrange(100))])


def gen_display(r, tag):
    d = {}
    if r.random() < 0.8:
        d["group"] = r.choice(["Basic", "SRD", None])
    if r.random() < 0.8:
        d["subgroup"] = r.choice(["A", "B b", None])
    if r.random() < 0.7:
        d["order"] = r.choice([0, 1, 2.5, None])
    if r.random() < 0.8:
        d["caption"] = r.choice([f"cap {tag}", f"cap (auto) {tag} (auto)", f"cap {tag} (auto)", f"cap (auto) {tag}", f"long {tag} " * r.choice([60, 400]), None])
    else:
        d["subgroup"] = f"s{tag}"
    return d


def gen_update(r, m, tag, kinds=("metric", "display", "plot", "stat")):
    k = r.choice(kinds)
    if k == "metric":
        return {"k": "metric", "m": m, "file": f"f{tag}.npz" if r.random() < 0.9 else None}
    if k == "display":
        return {"k": "display", "m": m, "d": gen_display(r, tag), "ow": r.random() < 0.7}
    if k == "plot":
        return {"k": "plot", "m": m, "type": r.choice(PTYPES), "file": f"p{tag}.x.pdf" if r.random() < 0.8 else "again.x.pdf", "ow": r.random() < 0.3}
    if r.random() < 0.3:
        n = r.randrange(0, 4)
        return {"k": "stat", "m": m, "name": r.choice(STATS), "arr": [[f"b{j}", r.choice([0.0, float(r.randrange(1000))])] for j in range(n)],
                "bytes": r.random() < 0.3}
    if r.random() < 0.05:
        return {"k": "stat", "m": m, "name": r.choice(STATS), "val": "text"}
    return {"k": "stat", "m": m, "name": r.choice(STATS), "val": gen_value(r)}


def gen_read(r, m):
    kind = r.choice(["ids", "id", "idlike", "stats", "plots", "files", "info", "dinfo", "runs"])
    op = {"k": "read", "q": kind}
    ids = r.choice(["none", "one", "list"])
    if kind in ("stats", "plots", "files", "info", "dinfo"):
        op["ids"] = ids
        op["m"] = m
    if kind == "id":
        op["a"] = [r.choice(NAMES), r.choice([None] + SLICERS), r.choice([None, "NULL"] + [x for x in LABELS if x]),
                   r.choice([None, "NULL", RUNS[0], RUNS[1]])]
    if kind == "idlike":
        op["a"] = [r.choice([None, "visits", "coadd", "m5", "Air_"]), r.choice([None, "Slicer", "uni", "pix"]),
                   r.choice([None, "band", "r_b", "all", "NUL"]), r.choice([None, "NULL", RUNS[0], RUNS[1]])]
    if kind == "stats":
        op["a"] = [r.choice([None, None, "Mean", "Identity"]), r.choice([None, None, "me", "d", "(+"]),
                   r.choice([None, None, "Med", ["Mean", "Rms"]])]
        op["sim"] = r.random() < 0.5
    if kind in ("plots", "info"):
        op["sim"] = r.random() < 0.5
    return op


# -- inside the simulated process ----------------------------------------------
def client(state, op):
    from rubin_sim.maf.db import ResultsDb

    k = op["k"]
    if k == "wait":
        core.SIM.sleep(op["t"])
        return None
    if core.SIM is not None:
        core.SIM.phase = "open"
    if k == "open" or "rdb" not in state:
        kw = dict(op.get("open") or state.get("open") or {})
        state["rdb"] = ResultsDb(**kw)
        if k == "open":
            return None
    rdb = state["rdb"]
    if k == "reopen":
        state["rdb"] = ResultsDb(**state["open"])
        return None
    if k == "downgrade":
        rdb.downgrade_database()
        del state["rdb"]
        return None
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return call(state, rdb, op)


def canon(x):
    if isinstance(x, (bytes, bytearray)):
        return x.decode()
    if isinstance(x, (int, np.integer)) and not isinstance(x, bool):
        return int(x)
    if isinstance(x, (float, np.floating)):
        x = float(x)
        return "nan" if math.isnan(x) else repr(x)
    if x is None:
        return None
    return str(x)


def rows_of(arr):
    return [[canon(x) for x in row] for row in arr.tolist()]


def metric_id(state, rdb, m):
    ids = state.setdefault("ids", {})
    if core.SIM is not None:
        core.SIM.phase = "register"
    if m not in ids:
        ids[m] = rdb.update_metric(*state["keys"][m], state["deffile"])
    if core.SIM is not None:
        core.SIM.phase = "call"
    return ids[m]


def call(state, rdb, op):
    k = op["k"]
    if k == "metric":
        mid = rdb.update_metric(*state["keys"][op["m"]], op["file"])
        state.setdefault("ids", {})[op["m"]] = mid
        return mid
    if k == "display":
        mid = metric_id(state, rdb, op["m"])
        rdb.update_display(mid, dict(op["d"]), overwrite=op["ow"])
        return mid
    if k == "plot":
        mid = metric_id(state, rdb, op["m"])
        rdb.update_plot(mid, op["type"], op["file"], overwrite=op["ow"])
        return mid
    if k == "stat":
        mid = metric_id(state, rdb, op["m"])
        if "arr" in op:
            v = np.array([(a, b) for a, b in op["arr"]], dtype=[("name", "S10" if op.get("bytes") else "U10"), ("value", float)])
        else:
            v = op["val"]
        kw = {}
        if "ntry" in op:
            kw = {"ntry": op["ntry"], "pause_time": op["pause"]}
        rdb.update_summary_stat(mid, op["name"], v, **kw)
        return mid
    if k == "read":
        return read(state, rdb, op)
    raise core.HarnessError("unknown op " + k)


def read(state, rdb, op):
    q = op["q"]
    if q == "ids":
        return [[int(i)] for i in rdb.get_all_metric_ids()]
    if q == "id":
        return [[int(i)] for i in rdb.get_metric_id(op["a"][0], slicer_name=op["a"][1], metric_info_label=op["a"][2],
                                                    run_name=op["a"][3])]
    if q == "idlike":
        return [[int(i)] for i in rdb.get_metric_id_like(*op["a"][:3], run_name=op["a"][3])]
    if q == "runs":
        return [canon(x) for x in rdb.get_run_name()]
    ids = None
    if op["ids"] != "none":
        found = rdb.get_metric_id(state["keys"][op["m"]][0])
        mine = state.setdefault("ids", {}).get(op["m"])
        if op["ids"] == "one":
            ids = mine if mine is not None else (found[0] if found else 10**6)
        else:
            ids = sorted(set(found + ([mine] if mine is not None else [])))
    if q == "stats":
        a = op["a"]
        rows = rows_of(rdb.get_summary_stats(metric_id=ids, summary_name=a[0], summary_name_like=a[1],
                                             summary_name_notlike=a[2], with_sim_name=op["sim"]))
    elif q == "plots":
        rows = rows_of(rdb.get_plot_files(metric_id=ids, with_sim_name=op["sim"]))
    elif q == "info":
        rows = rows_of(rdb.get_metric_info(metric_id=ids, with_sim_name=op["sim"]))
    elif q == "dinfo":
        rows = rows_of(rdb.get_metric_display_info(metric_id=ids))
    elif q == "files":
        rows = [canon(x) for x in rdb.get_metric_data_files(metric_id=ids)]
    return {"ids": ids, "rows": rows}


# -- the reference model ---------------------------------------------------------
# state of one metric: (datafile|None, display|None, plots, stats); tuples throughout
EMPTY = (None, None, (), ())


def chains(op, st, deffile):
    """The sequences of states one call may pass through."""
    out = [apply(op, st, deffile)]
    if st[0] == "NULL" and op["k"] != "metric" and deffile is not None:
        # a process which does not know the metric's id registers it again, with the data file
        out.append([st] + apply(op, (deffile,) + st[1:], deffile))
    return out


def apply(op, st, deffile):
    """States passed through by one call, from st (first) to the final one."""
    out = [st]
    f, d, p, s = st
    k = op["k"]
    if f is None:
        name = op["file"] if k == "metric" else deffile
        f = "NULL" if name is None else name
        out.append((f, d, p, s))
    elif k == "metric" and f == "NULL" and op["file"] is not None:  # a data file, where none was recorded
        f = op["file"]
        out.append((f, d, p, s))
    if k == "display":
        if d is None or op["ow"]:
            x = {a: ("NULL" if b is None else b) for a, b in op["d"].items()}
            for a in ("group", "subgroup", "order", "caption"):
                x.setdefault(a, "NULL")
            if x["order"] == "NULL":
                x["order"] = 0
            c = x["caption"]
            if c.endswith("(auto)"):
                c = c.replace("(auto)", "", 1)
            d = (x["group"], x["subgroup"], canon(float(x["order"])), c)
            out.append((f, d, p, s))
    elif k == "plot":
        if op["ow"]:
            p = tuple(x for x in p if x[0] != op["type"])
        p = tuple(sorted(p + ((op["type"], op["file"]),)))
        out.append((f, d, p, s))
    elif k == "stat":
        if "arr" in op:
            new = tuple((op["name"] + " " + a, canon(float(b))) for a, b in op["arr"])
        elif isinstance(op["val"], str):
            new = ()
        else:
            new = ((op["name"], canon(float(op["val"]))),)
        if new:
            s = tuple(sorted(s + new))
            out.append((f, d, p, s))
    return out


def like(pat, s):
    rx = "".join(".*" if c == "%" else "." if c == "_" else re.escape(c) for c in f"%{pat}%")
    return s is not None and re.fullmatch(rx, s, re.I | re.S) is not None


def long_name(key, stat):
    # Identity, Id and Count do not show in the name, nor does UniSlicer
    stat = "" if stat in ("Identity", "Id", "Count") else stat
    sl = "" if key[1] == "UniSlicer" else key[1]
    return " ".join([stat, key[0], key[4], sl]).strip(" ")


def expected(op, st, key, mid):
    """Rows a read returns for one metric in state st (sorted)."""
    q = op["q"]
    f, d, plots, stats = st
    if f is None:
        return []
    if q == "ids":
        return [[mid]]
    if q == "id":
        a = op["a"]
        ok = key[0] == a[0] and (a[1] is None or key[1] == a[1]) and (a[2] is None or key[4] == a[2]) and (
            a[3] is None or key[2] == a[3])
        return [[mid]] if ok else []
    if q == "idlike":
        a = op["a"]
        ok = (a[0] is None or like(a[0], key[0])) and (a[1] is None or like(a[1], key[1])) and (
            a[2] is None or like(a[2], key[4])) and (a[3] is None or key[2] == a[3])
        return [[mid]] if ok else []
    sim = [key[2]] if op.get("sim") else []
    if q == "stats":
        out = []
        eq, li, nl = op["a"]
        for name, val in stats:
            if eq is not None and name != eq:
                continue
            if li is not None and not like(li, name):
                continue
            if nl is not None and any(like(x, name) for x in (nl if isinstance(nl, list) else [nl])):
                continue
            out.append([mid, long_name(key, name), key[0], key[1], key[4], name, val] + sim)
        return sorted(out, key=str)
    if q == "plots":
        return sorted([[mid, key[0], key[4], t, fn, "thumb." + fn.rsplit(".", 1)[0] + ".png"] + sim for t, fn in plots], key=str)
    base = key[0].split("_")[0]
    if q == "info":
        return [[mid, key[0], base, key[1], key[3], key[4], f] + sim]
    if q == "dinfo":
        return [] if d is None else [[mid, key[0], base, key[1], key[3], key[4], f] + list(d)]
    raise core.HarnessError(q)


class History:
    """Possible states of every metric over the run."""

    def __init__(self, run, scn, deffile, initial=None, exc_applies=False):
        self.run = run
        self.keys = [norm_key(k) for k in scn["keys"]]
        self.deffile = deffile
        n = len(self.keys)
        init = initial or [EMPTY] * n
        # per metric: list of (start, end, states during, states after)
        self.tl = [[(-1, -1, {init[m]}, {init[m]})] for m in range(n)]
        self.ids = [None] * n
        for h in run.history:
            op = h["op"]
            if op["k"] not in ("metric", "display", "plot", "stat"):
                continue
            m = op["m"]
            cur = self.tl[m][-1][3]
            during, after = set(cur), set()
            for st, chain in [(x, y) for x in cur for y in chains(op, x, deffile)]:
                during.update(chain)
                if h["s"] == "ok":
                    after.add(chain[-1])
                elif h["s"] == "exc":
                    # the call itself has no effect; registering the metric
                    # first was a call of its own
                    after.add(chain[0])
                    if len(chain) > 1 and chain[1][0] != st[0] and op["k"] != "metric":
                        after.add(chain[1])
                    if exc_applies:
                        after.update(chain)
                else:  # crash: cut off anywhere
                    after.update(chain)
            self.tl[m].append((h["start"], h["end"], during, after))
            if h["s"] == "ok" and h["v"] is not None:
                if self.ids[m] is None:
                    self.ids[m] = h["v"]
                elif self.ids[m] != h["v"]:
                    run.violation("id-changed", f"metric {self.keys[m]} was id {self.ids[m]}, now {h['v']} ({op['k']})")
        seen = {}
        for m, i in enumerate(self.ids):
            if i is not None:
                if i in seen:
                    run.violation("id-shared", f"metrics {self.keys[m]} and {self.keys[seen[i]]} share id {i}")
                seen[i] = m

    def allowed(self, m, a, b):
        """States metric m may show to a read running over [a, b]."""
        out = set()
        base = None
        for s, e, during, after in self.tl[m]:
            if e is not None and e < a:
                base = after
            elif s is not None and s <= b:
                out |= during | after
        return out | (base or set())

    def final(self, m):
        return self.tl[m][-1][3]

    def check_raw(self, dump, cls="final-state"):
        """Compare the raw contents with the model; fill in unknown ids."""
        run = self.run
        rows = dump["metrics"]["rows"]
        byid = {}
        bykey = {}
        for r in rows:
            key = [r[1], r[2], r[3], r[4], r[5]]
            byid[r[0]] = key
            bykey.setdefault(tuple(key), []).append(r)
        for key, rr in bykey.items():
            if len(rr) > 1:
                run.violation("duplicate-metric", f"{len(rr)} records of metric {list(key)}")
            if list(key) not in self.keys:
                run.violation("foreign-metric", f"metric {list(key)} was never registered")
        known = set(byid)
        for t, name in (("displays", 1), ("plots", 1), ("summarystats", 1)):
            for r in dump[t]["rows"]:
                if r[name] not in known:
                    run.violation("orphan", f"{t} row {r} belongs to no metric")
        for m, key in enumerate(self.keys):
            rr = bykey.get(tuple(key))
            if rr is None:
                st = EMPTY
            else:
                mid = rr[0][0]
                if self.ids[m] is None:
                    self.ids[m] = mid
                elif self.ids[m] != mid:
                    run.violation("id-changed", f"metric {key} acknowledged as {self.ids[m]}, stored as {mid}")
                ds = [r for r in dump["displays"]["rows"] if r[1] == mid]
                if len(ds) > 1:
                    run.violation("two-displays", f"metric {key} has {len(ds)} display records")
                d = None
                if ds:
                    d = (ds[-1][2], ds[-1][3], canon(float(ds[-1][4])), ds[-1][5])
                st = (
                    rr[0][6],
                    d,
                    tuple(sorted((r[2], r[3]) for r in dump["plots"]["rows"] if r[1] == mid)),
                    tuple(sorted((r[2], canon(float("nan") if r[3] is None else float(r[3])))
                                 for r in dump["summarystats"]["rows"] if r[1] == mid)),
                )
            if st not in self.final(m):
                run.violation(cls, f"metric {key} holds {st}, allowed {sorted(self.final(m), key=str)[:6]}")

    def check_read(self, op, v, a, b, who):
        run = self.run
        idm = {i: m for m, i in enumerate(self.ids) if i is not None}
        q = op["q"]
        n = len(self.keys)
        if q == "runs":
            sure, may = set(), set()
            for m in range(n):
                al = self.allowed(m, a, b)
                if any(s[0] is not None for s in al):
                    may.add(self.keys[m][2])
                if all(s[0] is not None for s in al):
                    sure.add(self.keys[m][2])
            if len(set(v)) != len(v) or not (sure <= set(v) <= may):
                run.violation("read", f"{who}: get_run_name gave {v}, expected {sorted(sure)}..{sorted(may)}")
            return
        if q == "files":
            if op["ids"] != "one":
                return self.check_files(v, a, b, who)
            m = idm.get(v["ids"])
            if m is None:
                if v["rows"]:
                    run.violation("read", f"{who}: data files {v['rows']} for an unknown metric")
                return
            ok = [[] if s[0] is None else [s[0]] for s in self.allowed(m, a, b)]
            if v["rows"] not in ok:
                run.violation("read", f"{who}: data files of {self.keys[m]}: {v['rows']}, allowed {ok}")
            return
        rows = v["rows"] if isinstance(v, dict) else v
        want = None
        if isinstance(v, dict) and v["ids"] is not None:
            want = v["ids"] if isinstance(v["ids"], list) else [v["ids"]]
        by = {}
        for r in rows:
            by.setdefault(r[0], []).append(r)
        for mid in by:
            if mid not in idm:
                run.violation("read", f"{who}: {q} returned unknown metric id {mid}")
        for m in range(n):
            mid = self.ids[m]
            got = sorted(by.get(mid, []), key=str) if mid is not None else []
            if want is not None and mid not in want:
                if got:
                    run.violation("read", f"{who}: {q} for ids {want} returned metric {mid}")
                continue
            al = self.allowed(m, a, b)
            if not any(expected(op, s, self.keys[m], mid) == got for s in al):
                run.violation("read", f"{who}: {op} for metric {self.keys[m]} returned {got}, allowed "
                              f"{[expected(op, s, self.keys[m], mid) for s in sorted(al, key=str)][:4]}")
        if q == "id":
            order = [(self.keys[idm[r[0]]][1], self.keys[idm[r[0]]][4]) for r in rows if r[0] in idm]
            if order != sorted(order):
                run.violation("read", f"{who}: get_metric_id not ordered: {order}")

    def check_files(self, v, a, b, who):
        idm = {i: m for m, i in enumerate(self.ids) if i is not None}
        ids = v["ids"]
        sure, may = 0, 0
        names = set()
        for m in range(len(self.keys)):
            if ids is not None and self.ids[m] not in ids:
                continue
            al = self.allowed(m, a, b)
            names |= {s[0] for s in al if s[0] is not None}
            may += any(s[0] is not None for s in al)
            sure += all(s[0] is not None for s in al)
        if not (sure <= len(v["rows"]) <= may) or not set(v["rows"]) <= names:
            self.run.violation("read", f"{who}: data files {v['rows']}, expected {sure}..{may} of {sorted(names)}")

    def check_reads(self):
        for h in self.run.history:
            if h["op"]["k"] == "read" and h["s"] == "ok":
                self.check_read(h["op"], h["v"], h["start"], h["end"], h["c"])


FULL_READS = [
    {"k": "read", "q": "ids"},
    {"k": "read", "q": "runs"},
    {"k": "read", "q": "stats", "ids": "none", "m": 0, "a": [None, None, None], "sim": True},
    {"k": "read", "q": "plots", "ids": "none", "m": 0, "sim": True},
    {"k": "read", "q": "info", "ids": "none", "m": 0, "sim": True},
    {"k": "read", "q": "dinfo", "ids": "none", "m": 0},
    {"k": "read", "q": "files", "ids": "none", "m": 0},
]


def full_read(keys, openkw):
    from rubin_sim.maf.db import ResultsDb

    rdb = ResultsDb(**openkw)
    st = {"keys": keys, "ids": {}}
    out = [read(st, rdb, op) for op in FULL_READS]
    rdb.close()
    return out


def fresh_check(run, hist, scn, openkw):
    """A fresh process opens the database and reads everything."""
    r = run.observe(full_read, scn["keys"], openkw)
    if r[0] != "ok":
        run.violation("open-failed", f"fresh open and read: {r[1:]}")
        return
    end = run.seq + 1
    for op, v in zip(FULL_READS, r[1]):
        hist.check_read(op, v, end, end, "fresh reader")


def warm():
    """Use everything once so that forked processes start warm."""
    import shutil
    import tempfile

    sqlseam.install()
    from rubin_sim.maf.db import ResultsDb

    d = tempfile.mkdtemp()
    r = random.Random(1)
    st = {"open": {"out_dir": d}, "keys": gen_keys(r, 3), "deffile": "x.npz"}
    client(st, {"k": "open"})
    for i in range(40):
        client(st, gen_update(r, i % 3, i))
    for i in range(40):
        client(st, gen_read(r, i % 3))
    for op in FULL_READS:
        client(st, op)
    st["rdb"].Session.kw["bind"].dispose()
    shutil.rmtree(d)
