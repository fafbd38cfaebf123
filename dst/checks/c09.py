"""C09: the show_maf server always serves the current tracked runs."""

import html
import json
import os
import random
import re
import sys

from .. import core, rdb, sqlseam
from .c04 import locker_runs

PROPERTY = "C09"
LEVEL = "exploration"
RUNS = {"quick": 500, "thorough": 20000}
WALL = {"quick": 240, "thorough": 1800}
REAL = ["rubin_sim.maf.show_maf (start-up, application, handlers)", "rubin_sim.maf.web (MafTracking, MafRunResults, templates)", "tornado.web", "jinja2", "rubin_sim.maf.db", "rubin_sim.maf.metric_bundles (data files)", "SQLite", "the file system"]
STUB = ["the TCP/HTTP connection (requests are handed to the tornado application)", "clock, sleeping and the modification time of the tracking database (simulated)", "process scheduling", "a peer that holds the tracking database lock"]
ASSUME = ["successive changes of the tracking database have different modification times", "the server runs in the directory of the tracking database",
          "the metrics of a run are read when it is first asked for after the tracking database changed", "at least one run is tracked"]
RULE = "one server (killed and restarted at any point) and 1-3 processes that add, update and delete runs or record results, a lock holder; requests for the list, every page and data of tracked and untracked runs."

NDIR = 4
TRACK = "trackingDb_sqlite.db"
PLOTTED = (0, 2, 3)


def warm():
    sqlseam.install()
    from .c04 import warm as w4

    w4()
    import asyncio  # noqa: F401

    import tornado.httputil  # noqa: F401
    import tornado.log  # noqa: F401
    import tornado.web  # noqa: F401

    import rubin_sim.maf.show_maf  # noqa: F401


def generate(seed, tier):
    r = random.Random(seed)
    nw = r.choice([1, 1, 2, 3])
    nmet = [r.choice([0, 1, 2, 4]) for _ in range(NDIR)]
    pre = [0] + [d for d in range(1, NDIR) if r.random() < 0.5]
    clients, tag = [], 0
    sops = [{"k": "start"}]
    lock = r.random() < 0.25
    swap = r.random() < 0.2  # runs take each other's places (and ids) while they are looked at
    if swap:
        nw, lock, pre = 1, False, [0, 1]
        nmet = [n or 2 for n in nmet]
    for _ in range(r.randrange(3, 13)):
        x = r.random()
        d = r.randrange(NDIR)
        if swap:
            d, x = r.choice([1, 2]), 0.35 + 0.57 * x
        if x < 0.35:
            op = {"k": "list"}
        elif x < 0.75:
            op = {"k": "page", "d": d, "p": r.choice(["metricSelect", "allMetricResults", "summaryStats", "multiColor", "metricResults", "groupResults", "oneMetric"])}
            if op["p"] == "oneMetric":
                op["m"] = r.randrange(4)
        elif x < 0.92:
            op = {"k": "data", "d": d, "m": r.randrange(4), "t": r.choice(["npz", "json", "npz", "xml"])}
        else:
            op = {"k": "bad", "u": r.choice(["/metricSelect?runId=4242", "/metricSelect", "/getData?runId=1&metric_id=777&datatype=npz", "/nosuch.html", "/metricSelect?runId=0", "/allMetricResults?runId=0", "/metricSelect?runId=-1", "/summaryStats?runId=x"])}
        if r.random() < 0.1:
            op["fault"] = {"kind": r.choice(["crash", "io_crash"]), "at": r.randrange(1, 20)}
        sops.append(op)
        if lock and r.random() < 0.5:
            sops.append({"k": "wait", "t": r.choice([0.1, 4, 20])})
    if lock:
        sops += [{"k": "wait", "t": 1e6}, {"k": "list", "final": True}]
    clients.append({"name": "srv", "ops": sops})
    crash = r.choice([0.0, 0.0, 0.25])
    own = list(range(1, NDIR))
    r.shuffle(own)
    for c in range(nw):
        mine = own[c::nw]
        if c == 0:
            mine = mine + [0]
        ops = []
        for _ in range(r.randrange(1, 6)):
            tag += 1
            d = r.choice(mine)
            x = r.random()
            if x < 0.55:
                op = {"k": "add", "d": d, "f": {"run_name": f"TOKr{tag}x", "maf_comment": f"TOKc{tag}x", "run_group": f"TOKg{tag}x"}}
            elif x < 0.75 and d != 0:
                op = {"k": "del", "d": d}
            else:
                op = {"k": "result", "d": d, "tag": tag, "what": r.choice(["metric", "metric", "stat", "plot"])}
            if r.random() < crash:
                op["fault"] = {"kind": r.choice(["crash", "io_crash", "io_torn"]), "at": r.randrange(1, 14)}
            ops.append(op)
            if lock and r.random() < 0.5:
                ops.append({"k": "wait", "t": r.choice([0.1, 4, 20])})
        if swap:
            ops, cur = [], 1
            for _ in range(r.randrange(1, 4)):
                tag += 1
                ops.append({"k": "del", "d": cur})
                cur = 3 - cur
                ops.append({"k": "add", "d": cur, "f": {"run_name": f"TOKr{tag}x", "maf_comment": f"TOKc{tag}x", "run_group": f"TOKg{tag}x"}})
        clients.append({"name": f"w{c}", "ops": ops})
    if lock:
        ops = []
        for _ in range(r.randrange(1, 3)):
            ops.append({"k": "wait", "t": r.choice([0.0, 0.01, 3, 10])})
            ops.append({"k": "lock", "mode": "exclusive", "t": r.choice([1, 4, 8, 15])})
        clients.append({"name": "lock0", "ops": ops})
    return {"clients": clients, "nmet": nmet, "pre": pre, "sched_seed": seed, "stay": r.choice([0.1, 0.4, 0.7]), "ioyield": r.random() < 0.3}


def mdir(base, d):
    return os.path.join(base, f"maf{d}")


def mname(d, m):
    return f"TOKm{d}q{2 if m == 3 else m}x"  # two bundles of one metric


def sval(d, m):
    return 1000.25 + 100 * d + m


# -- results of the runs --------------------------------------------------------
def make_dir(base, d, n):
    import numpy as np

    from rubin_sim.maf import MeanMetric, MetricBundle, ResultsDb, UniSlicer

    p = mdir(base, d)
    os.makedirs(p, exist_ok=True)
    r = ResultsDb(out_dir=p)
    for m in range(n):
        b = MetricBundle(MeanMetric(col="x", metric_name=mname(d, m)), UniSlicer(), "", run_name=f"run{d}", info_label=f"lab{m}",
                         display_dict={"group": f"G{m % 2}", "subgroup": f"S {m // 2}", "caption": f"TOKcap{d}q{m}x"})
        b.metric_values = np.ma.MaskedArray([sval(d, m) + 0.125], mask=[False])
        b.write(out_dir=p, results_db=r)
        mid = r.update_metric(mname(d, m), "UniSlicer", f"run{d}", "", f"lab{m}", None)
        r.update_summary_stat(mid, "Mean", sval(d, m))
        if m in PLOTTED:
            r.update_plot(mid, "SkyMap", f"TOKp{d}q{m}x_r_SkyMap.pdf")


def make_tracking(base, pre):
    from rubin_sim.maf.db import TrackingDb

    t = TrackingDb(os.path.join(base, TRACK))
    for d in pre:
        t.add_run(maf_dir=mdir(base, d), run_name=f"TOKr0{d}x", maf_comment=f"TOKc0{d}x", run_group=f"TOKg0{d}x")
    t.close()


def writer(base):
    path = os.path.join(base, TRACK)

    def touched(con):
        if getattr(con, "simpath", "").endswith(TRACK):
            os.utime(path, (core.SIM.now, core.SIM.now))

    def fn(state, op):
        from rubin_sim.maf.db import ResultsDb, TrackingDb

        sqlseam.AFTER_COMMIT = touched
        k = op["k"]
        if k == "wait":
            core.SIM.sleep(op["t"])
            return None
        if k == "result":
            d, tag = op["d"], op["tag"]
            r = ResultsDb(out_dir=mdir(base, d))
            mid = r.update_metric(f"TOKm{d}q{tag + 100}x", "UniSlicer", f"run{d}", "", f"lab{tag}", "none.npz")
            r.update_display(mid, {"group": "G0", "subgroup": "S 0", "caption": f"TOKcap{d}q{tag + 100}x"})
            if op["what"] == "stat":
                r.update_summary_stat(mid, "Mean", sval(d, tag) + 5000)
            if op["what"] == "plot":
                r.update_plot(mid, "Histogram", f"TOKp{d}q{tag + 100}x.pdf")
            return None
        if "t" not in state:
            state["t"] = TrackingDb(path)
        if k == "add":
            return state["t"].add_run(maf_dir=mdir(base, op["d"]), **op["f"])
        con = sqlseam._real_connect(path, timeout=100000)
        row = con.execute("select maf_run_id from runs where maf_dir=?", (f"maf{op['d']}",)).fetchone()
        con.close()
        if row is None:
            return None
        state["t"].delRun(row[0])
        return row[0]

    return fn


# -- the server -----------------------------------------------------------------
class Conn:
    def __init__(self):
        self.status = None
        self.headers = {}
        self.body = b""
        self.finished = False

        class Ctx:
            remote_ip = "127.0.0.1"
            protocol = "http"

        self.context = Ctx()

    def set_close_callback(self, cb):
        pass

    def _done(self):
        import asyncio

        f = asyncio.get_event_loop().create_future()
        f.set_result(None)
        return f

    def write_headers(self, start_line, headers, chunk=None):
        self.status = start_line.code
        self.headers = dict(headers.get_all())
        if chunk:
            self.body += chunk
        return self._done()

    def write(self, chunk):
        self.body += chunk
        return self._done()

    def finish(self):
        self.finished = True


def request(state, uri):
    import asyncio

    from tornado.httputil import HTTPHeaders, HTTPServerRequest

    conn = Conn()

    async def go():
        req = HTTPServerRequest(method="GET", uri=uri, version="HTTP/1.1", headers=HTTPHeaders({"Host": "localhost"}), body=b"",
                                host="localhost", connection=conn)
        state["app"].find_handler(req).execute()
        for _ in range(10000):
            if conn.finished:
                return
            await asyncio.sleep(0)
        raise RuntimeError("no answer to the request")

    asyncio.run(go())
    return conn


def start(state):
    import logging

    from tornado.platform.asyncio import BaseAsyncIOLoop
    from tornado.tcpserver import TCPServer

    from rubin_sim.maf import show_maf as mod

    if not hasattr(mod, "make_app"):
        mod = sys.modules["rubin_sim.maf.show_maf"]
    logging.disable(logging.CRITICAL)

    def listen(srv, *a, **k):
        state["app"] = srv.request_callback

    TCPServer.listen = listen
    BaseAsyncIOLoop.start = lambda loop: None
    sys.argv = ["show_maf", "-t", os.path.join(state["base"], TRACK), "--no_browser"]
    mod.show_maf()
    state["new"] = True


def run_id(base, d):
    """The id a user would pick from the list: asked of the database itself."""
    con = sqlseam._real_connect(os.path.join(base, TRACK), timeout=100000)
    row = con.execute("select maf_run_id from runs where maf_dir=?", (f"maf{d}",)).fetchone()
    con.close()
    return row and row[0]


def metric_id(base, d, m):
    con = sqlseam._real_connect(os.path.join(mdir(base, d), "resultsDb_sqlite.db"), timeout=100000)
    row = con.execute("select metric_id from metrics where metric_name=? and metric_info_label=?", (mname(d, m), f"lab{m}")).fetchone()
    con.close()
    return row and row[0]


TOK = re.compile(r"TOK[a-z]+\d+(?:q\d+)?x")
NUM = re.compile(r"\b\d{4}\.\d\d\b")


def seen(conn):
    body = html.unescape(conn.body.decode("utf-8", "replace"))
    return {"st": conn.status, "tok": sorted(set(TOK.findall(body))), "num": sorted(set(NUM.findall(body)))}


def server(base):
    def fn(state, op):
        state["base"] = base
        if op["k"] == "wait":
            core.SIM.sleep(op["t"])
            return None
        if "app" not in state:
            start(state)
            state["loaded"] = []
        if op["k"] == "start":
            return None
        if op["k"] == "bad":
            return {"st": request(state, op["u"]).status}
        if op["k"] == "list":
            conn = request(state, "/")
            out = seen(conn)
            body = html.unescape(conn.body.decode())
            out["rows"] = re.findall(r"allMetricResults\?runId=(\d+)[^>]*>\s*(TOKr\d+x)", body)
            return out
        rid = run_id(base, op["d"])
        if rid is None:
            return None
        if op["k"] == "page":
            if op["p"] == "metricResults":
                u = f"/metricResults?runId={rid}" + "".join(
                    f"&metric_id={metric_id(base, op['d'], m)}" for m in range(4) if metric_id(base, op["d"], m))
            elif op["p"] == "oneMetric":
                mid = metric_id(base, op["d"], op["m"])
                if mid is None:
                    return None
                u = f"/metricResults?runId={rid}&metric_id={mid}"
            elif op["p"] == "groupResults":
                u = f"/metricResults?runId={rid}&Group_subgroup=G0__S+0"
            else:
                u = f"/{op['p']}?runId={rid}"
            conn = request(state, u)
            out = seen(conn)
        else:
            mid = metric_id(base, op["d"], op["m"])
            if mid is None:
                return None
            conn = request(state, f"/getData?runId={rid}&metric_id={mid}&datatype={op['t']}")
            out = {"st": conn.status}
            if op["t"] == "npz" and conn.status in (301, 302):
                loc = conn.headers["Location"]
                c2 = request(state, "/" + loc.lstrip("/"))
                out["loc"] = loc
                out["st2"] = c2.status
                from rubin_sim.maf import MetricBundle

                p = os.path.join(base, "got.npz")
                with open(p, "wb") as f:
                    f.write(c2.body)
                b = MetricBundle.load(p)
                out["got"] = [b.metric.name, float(b.metric_values[0])]
            elif op["t"] == "json" and conn.status == 200:
                head, data = json.loads(conn.body)
                out["got"] = [head.get("metric_name", head.get("metricName")), float(data[0][0])]
        out["rid"] = rid
        out["fresh"] = rid not in state["loaded"]
        state["loaded"].append(rid)
        return out

    return fn


def run(scn, ctx):
    run = core.Run(scn, ctx.base)
    try:
        base = run.dir
        track = os.path.join(base, TRACK)
        for d in range(NDIR):
            must(run.observe(make_dir, base, d, scn["nmet"][d]))
        must(run.observe(make_tracking, base, scn["pre"]))
        os.utime(track, (run.now - 100, run.now - 100))
        first = rows(track)

        def on_event(p, what):
            if what == "crash" and p.name != "srv":
                os.utime(track, (run.now, run.now))

        run.on_event = on_event
        for c in scn["clients"]:
            n = c["name"]
            fn = server(base) if n == "srv" else locker_runs(track) if n.startswith("lock") else writer(base)
            run.add(n, fn, c["ops"], None)
        run.go()
        check(run, scn, first)
        return core.result_of(run)
    finally:
        run.cleanup()


def must(r):
    if r[0] != "ok":
        raise core.HarnessError(str(r))


def rows(track):
    t = sqlseam.dump(track)["runs"]
    c = t["cols"]
    return {r[c.index("maf_dir")]: (r[c.index("maf_run_id")], r[c.index("run_name")], r[c.index("maf_comment")], r[c.index("run_group")]) for r in t["rows"]}


def check(run, scn, first):
    hist = run.history
    haslock = any(c["name"].startswith("lock") for c in scn["clients"])
    # possible details of each directory over time: list of (start, end, value or None, state)
    changes = {f"maf{d}": [] for d in range(NDIR)}
    for h in hist:
        if h["op"]["k"] in ("add", "del") and h["c"] != "srv":
            v = None
            if h["op"]["k"] == "add":
                f = h["op"]["f"]
                v = (f["run_name"], f["maf_comment"], f["run_group"])
            elif h["s"] == "ok" and h["v"] is None:
                continue
            if h["s"] == "exc":
                if "locked" not in (h["m"] or "") or not haslock:
                    run.violation("op-failed", f"{h['c']} {h['op']}: {h['e']}: {h['m']} {h['w']}")
                continue
            changes[f"maf{h['op']['d']}"].append((h["start"], h["end"], v, h["s"]))
        elif h["s"] == "exc" and h["c"] != "srv" and not h["c"].startswith("lock"):
            run.violation("op-failed", f"{h['c']} {h['op']}: {h['e']}: {h['m']} {h['w']}")

    def possible(d, lo, hi):
        """Values directory d may have had at some instant of [lo, hi]."""
        cur = [first[d][1:] if d in first else None]
        for start, end, v, s in changes[d]:
            if end <= lo:
                cur = [v] if s == "ok" else cur + [v]
            elif start <= hi:
                cur = cur + [v]
        return cur

    names = {}
    for d in range(NDIR):
        k = f"maf{d}"
        for v in [first[k][1:]] if k in first else []:
            names[v[0]] = k
        for c in changes[k]:
            if c[2]:
                names[c[2][0]] = k
    locks = [(h["t0"], h["t1"]) for h in hist if h["op"]["k"] == "lock"]
    for h in hist:
        if h["c"] != "srv" or h["op"]["k"] == "wait":
            continue
        what = f"{h['op']}"
        if h["s"] == "exc":
            busy = any(a < h["t1"] and b > h["t0"] for a, b in locks)
            if h.get("fired") or (busy and "locked" in (h["m"] or "")):
                continue
            run.violation("server-failed", f"{what}: {h['e']}: {h['m']} {h['w']}")
            continue
        if h["s"] != "ok" or h["v"] is None:
            continue
        v, op = h["v"], h["op"]
        if op["k"] == "bad":
            if v["st"] == 200:
                run.violation("wrong-page", f"{what} was answered with a page")
            continue
        busy = any(a < h["t1"] and b > h["t0"] for a, b in locks)
        lo, hi = h["start"], h["end"]
        if op["k"] == "list":
            if v["st"] != 200:
                if not (v["st"] == 500 and busy):
                    run.violation("no-answer", f"{what}: status {v['st']}")
                continue
            shown = {}
            for rid, name in v["rows"]:
                d = names.get(name)
                if d is None or d in shown:
                    run.violation("wrong-list", f"{what}: unexpected or repeated run {name}: {v['rows']}")
                    break
                shown[d] = (int(rid), name)
            for d in sorted(changes):
                poss = possible(d, lo, hi)
                if d in shown:
                    if shown[d][1] not in [p[0] for p in poss if p]:
                        run.violation("stale-list", f"{what}: {d} shown as {shown[d]}, possible {poss}")
                elif None not in poss:
                    run.violation("stale-list", f"{what}: {d} not shown, possible {poss}")
                for p in poss:
                    if d in shown and p and p[0] == shown[d][1] and not (p[1] in v["tok"] and p[2] in v["tok"]):
                        run.violation("wrong-list", f"{what}: details {p} of {d} not shown together: {v['tok']}")
            continue
        # a page or data of the run in directory d, which had id rid when asked
        d = op["d"]
        poss = possible(f"maf{d}", lo, hi)
        moving = len(poss) > 1
        if v["st"] not in (200, 301, 302):
            if not (busy and v["st"] == 500) and not moving:
                run.violation("no-answer", f"{what}: status {v['st']}")
            continue
        own = [t for t in v.get("tok", []) if re.match(r"TOK(?:m|cap|p)\d", t)]
        foreign = [t for t in own if int(re.match(r"TOK(?:m|cap|p)(\d)", t)[1]) != d]
        nums = [x for x in v.get("num", []) if 1000 <= float(x) < 1000 + 100 * NDIR]
        foreign += [x for x in nums if int((float(x) - 1000) // 100) != d]
        if foreign and not moving:
            run.violation("mixed-up", f"{what}: the page of run {v['rid']} (maf{d}) shows {foreign}")
            continue
        if op["k"] == "page" and not moving:
            n = scn["nmet"][d]
            need = []
            if op["p"] == "metricSelect":
                need = [mname(d, m) for m in range(n)]
            elif op["p"] == "summaryStats":
                need = ["%.2f" % sval(d, m) for m in range(n)]
            elif op["p"] == "metricResults":
                need = [mname(d, m) for m in range(n)] + [f"TOKcap{d}q{m}x" for m in range(n)] + [f"TOKp{d}q{m}x" for m in PLOTTED if m < n] + ["%.2f" % sval(d, m) for m in range(n)]
            elif op["p"] == "allMetricResults":
                need = [f"TOKp{d}q{m}x" for m in PLOTTED if m < n]
            elif op["p"] == "groupResults":
                need = [mname(d, m) for m in range(n) if m % 2 == 0 and m // 2 == 0]
            elif op["p"] == "multiColor":
                need = [f"TOKp{d}q{m}x" for m in PLOTTED if m < n]
            elif op["p"] == "oneMetric":
                m = op["m"]
                need = [mname(d, m), f"TOKcap{d}q{m}x", "%.2f" % sval(d, m)] + ([f"TOKp{d}q{m}x"] if m in PLOTTED else [])
                other = [x for x in own + nums if x not in need]
                if other:
                    run.violation("mixed-up", f"{what}: the page of metric {need} shows {other}")
            if op["p"] in ("metricSelect",) and v["fresh"]:
                for g in hist:
                    if g["op"]["k"] == "result" and g["op"]["d"] == d and g["s"] == "ok" and g["end"] < h["start"]:
                        need.append(f"TOKm{d}q{g['op']['tag'] + 100}x")
            have = v["tok"] + v["num"]
            miss = [x for x in need if x not in have]
            if miss:
                run.violation("missing", f"{what}: run {v['rid']} lacks {miss}; shows {have}")
        if op["k"] == "data" and not moving:
            want = [mname(d, op["m"]), sval(d, op["m"]) + 0.125]
            if op["t"] != "xml" and v.get("got") != want:
                run.violation("wrong-data", f"{what}: got {v}, expected {want}")
            if op["t"] == "npz" and v.get("st2") != 200:
                run.violation("wrong-data", f"{what}: {v}")
