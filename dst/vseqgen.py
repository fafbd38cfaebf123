"""Scenario generator for the visit sequence archive."""

import datetime as dt
import hashlib
import json

TAGS = ["prenight", "ideal", "nominal", "x", "100%", "a'b", "Ideal", "100 %", "p_enight", "X", "ide%", "été", ""]
MAIN = TAGS[:3]
TYPES = ["rewards", "scheduler", "stats"]
# the end of a year, of a leap February, and changes to and from daylight saving time
TURNS = ["2025-12-31", "2025-10-01", "2028-02-29", "2025-09-07", "2026-04-05", "2025-11-02", "2026-03-08"]
FORMS = ["str", "int", "date", "datetime", "time", "time2"]


class Gen:
    def __init__(self, r, base="2025-06-16"):
        self.r = r
        self.n = 0
        day = dt.date.fromisoformat(base)
        self.days = [(day + dt.timedelta(days=i)).isoformat() for i in (-2, -1, 0, 1)]
        # noon-ish, midnight-ish (UTC) and arbitrary times of the day
        self.t0 = dt.datetime(day.year, day.month, day.day, tzinfo=dt.timezone.utc).timestamp() + r.choice([5.0, 43190.0, 43205.0, r.randrange(100, 86000)])
        self.pair = r.choice([TAGS[:2], TAGS[:2], ["ideal", "Ideal"], ["100%", "100 %"], ["prenight", "p_enight"], ["x", "X"], ["ideal", "ide%"], ["été", ""]])
        self.env = [self.conda(i) for i in range(2)]

    def conda(self, i):
        j = json.dumps([{"name": "rubin_sim", "version": f"2.{i}", "channel": "conda-forge"}, {"name": f"pkg{i}", "version": "1", "channel": "x"}])
        return hashlib.sha256(j.encode()).hexdigest(), j

    def uniq(self, s):
        self.n += 1
        return f"{s}{self.n}"

    def day(self, lo=0, hi=3):
        r = self.r
        return [r.choice(FORMS), self.days[r.randrange(lo, hi + 1)]]

    def creation(self):
        r = self.r
        # distinct, and away from the age limits and from midnight
        self.n += 1
        back = r.choice([0.1, 0.2, 0.6, 0.9, 1.4, 1.5, 2.4, 2.6, 5.3])
        t = int(self.t0 - back * 86400 - self.n * 60)
        x = r.random()
        if x < 0.3:  # minutes from an age limit
            t = int(self.t0 - r.choice([1, 1, 2, 2, 3]) * 86400 + r.choice([-1, 1]) * (240 + 2 * self.n))
        elif x < 0.5:  # seconds from the change of night (noon, UTC)
            t = int(self.t0 - 43200) // 86400 * 86400 + 43200 - r.choice([0, 1, 1, 2]) * 86400 + r.choice([-1, 1]) * (1 + self.n)
            t = min(t, int(self.t0) - 2 * self.n)
        t = dt.datetime.fromtimestamp(t, dt.timezone.utc)
        s = t.replace(tzinfo=None, microsecond=r.choice([0, 0, 123000, 999000])).isoformat(timespec="milliseconds")
        return s

    def record(self, init=False, own=(), ninit=0, bad=0.0, sim=False):
        r = self.r
        t = "simulations" if sim else r.choice(["simulations"] * 5 + ["visitseq", "completed", "mixedvisitseq"])
        op = {"k": "record", "table": t, "label": self.uniq("seq "), "vis": r.randrange(14), "n": self.n}
        if r.random() < 0.3:
            op["telescope"] = r.choice(["simonyi", "auxtel", "auxtel"])
        if r.random() < 0.4:
            op["url"] = self.uniq("file:///v/")
        if r.random() < 0.8:
            op["first_day_obs"] = self.day(0, 2)
            if r.random() < 0.9:
                op["last_day_obs"] = [r.choice(FORMS), max(op["first_day_obs"][1], self.days[r.randrange(1, 4)])]
        if r.random() < 0.5:
            op["creation"] = self.creation()
        if t == "simulations":
            if r.random() < 0.7:
                op["scheduler_version"] = self.uniq("v")
            if r.random() < 0.5:
                op["config_url"] = self.uniq("http://c/")
            if r.random() < 0.4:
                op["conda"] = r.choice(self.env)[0]
            if r.random() < 0.4:
                op["parent_visitseq_uuid"] = self.parent(init, ninit)
            if r.random() < 0.4:
                op["kwargs"] = r.choice([{}, {"a": 1, "b": "x"}, {"o": "<object>", "c": [1, 2.5, None]}, {"big": "y" * 5000, "q": {"z": True}},
                                         {"full": "y" * 4000, "mid": "z" * 700, "none": None}])
            if r.random() < 0.4:
                op["parent_last_day_obs"] = self.day()
        elif t == "completed":
            if r.random() < 0.8:
                op["query"] = self.uniq("SELECT ")
        elif t == "mixedvisitseq":
            op["last_early_day_obs"] = self.day(0, 1)
            op["first_late_day_obs"] = self.day(2, 3)
            op["early_parent_uuid"] = self.parent(init, ninit)
            op["late_parent_uuid"] = self.parent(init, ninit)
        if r.random() < bad:
            self.spoil(op)
        return op

    def parent(self, init, ninit):
        if ninit and not init:
            return ["init", self.r.randrange(ninit)]
        return ["none", self.r.randrange(9)]

    def spoil(self, op):
        """An argument the archive cannot accept."""
        r = self.r
        t = op["table"]
        what = ["telescope", "last_day_obs"]
        if t == "simulations":
            what += ["parent_last_day_obs", "parent_visitseq_uuid"] * 2
        if t == "mixedvisitseq":
            what += ["last_early_day_obs", "late_parent_uuid"] * 2
        w = r.choice(what)
        if w == "telescope":
            op["telescope"] = None
        elif w.endswith("uuid"):
            op[w] = "not-a-uuid"
        else:
            op[w] = ["str", "2025-13-45"]
        op["bad"] = w

    def stats(self, bad=0.0):
        r = self.r
        rows = []
        seen = set()
        for _ in range(r.randrange(1, 5)):
            k = (r.choice(self.days[:3]), r.choice(["airmass", "fwhm", "t_eff"]))
            if k in seen:
                continue
            seen.add(k)
            row = {"day_obs": k[0], "value_name": k[1], "accumulated": False, "count": r.randrange(1, 900)}
            for c in ("mean", "std", "min", "p05", "q1", "median", "q3", "p95", "max"):
                row[c] = r.randrange(-800, 800) / 8
            rows.append(row)
        op = {"k": "stats", "rows": rows}
        if r.random() < bad:
            if r.random() < 0.5:
                rows.append(dict(rows[0]))
            else:
                rows[-1]["value_name"] = None
            op["bad"] = True
        return op

    def nights(self, u, read):
        """Simulations that (nearly) match what is looked for."""
        r = self.r
        if r.random() < read:
            op = {"k": r.choice(["sims", "simstats"])}
            if r.random() < 0.6:
                op["tags"] = r.sample(MAIN, r.choice([0, 1, 2]))
            op["max_simulation_age"] = r.choice([1, 2, 3, 30])
            d = self.day(0, 3)
            if op["k"] == "simstats":
                op["day_obs"] = d
            else:
                op["first_day_obs"] = d
                op["last_day_obs"] = [r.choice(FORMS), max(d[1], r.choice(self.days))]
            return op
        x = r.random()
        if x < 0.5:
            return {"k": "tag", "u": u, "tags": MAIN[: r.choice([2, 3, 3])] if r.random() < 0.8 else [r.choice(TAGS)]}
        if x < 0.6:
            return {"k": "untag", "u": u, "tag": r.choice(MAIN)}
        if x < 0.9:
            return dict(self.stats(0.0), u=u)
        return {"k": "file", "u": u, "type": r.choice(TYPES), "sha": hashlib.sha256(self.uniq("f").encode()).hexdigest(), "url": self.uniq("file:///f/"), "update": True}

    def audit(self, ninit):
        """Everything that can be read about the known sequences, afterwards."""
        r = self.r
        out = []
        for i in range(ninit):
            u = ["init", i]
            out += [{"k": "meta", "u": u, "table": r.choice(["visitseq", "simulations_extra"])}, {"k": "geturl", "u": u}, {"k": "comments", "u": u}, {"k": "getstats", "u": u},
                    {"k": "fileurl", "u": u, "type": r.choice(TYPES)}, {"k": "filesha", "u": u, "type": r.choice(TYPES)}]
            out += [{"k": "tagged", "u": u, "tag": t} for t in r.sample(TAGS, 3)]
        for d in r.sample(self.days, 2):
            out.append({"k": "simstats", "tags": r.choice([[], MAIN[:1], MAIN]), "telescope": r.choice(["simonyi", "simonyi", "auxtel"]),
                        "max_simulation_age": r.choice([1, 2, 3, 30]), "day_obs": [r.choice(FORMS), d]})
        for _ in range(2):
            d = self.day(0, 2)
            out.append({"k": "sims", "tags": r.choice([[], MAIN[:1], [r.choice(TAGS)]]), "max_simulation_age": r.choice([1, 2, 3, 30]),
                        "first_day_obs": d, "last_day_obs": [r.choice(FORMS), max(d[1], r.choice(self.days))]})
        return out

    def hot(self, what, u, read):
        """Contention on one kind of detail."""
        r = self.r
        if what == "nights":
            return self.nights(u, read)
        if what == "tags":
            t = r.choice(self.pair)
            if r.random() < read:
                return r.choice([{"k": "tagged", "u": u, "tag": t}, {"k": "meta", "u": u, "table": "simulations_extra"}])
            return {"k": "tag", "u": u, "tags": r.choice([[t], self.pair])} if r.random() < 0.45 else {"k": "untag", "u": u, "tag": t}
        if what == "files":
            if r.random() < read:
                return {"k": r.choice(["fileurl", "filesha"]), "u": u, "type": "rewards"}
            return {"k": "file", "u": u, "type": r.choice(["rewards", "rewards", "stats"]), "sha": hashlib.sha256(self.uniq("f").encode()).hexdigest(),
                    "url": self.uniq("file:///f/"), "update": r.random() < 0.5}
        if what == "comments":
            if r.random() < read:
                return {"k": "comments", "u": u}
            return {"k": "comment", "u": u, "text": f"again {self.me}" if r.random() < 0.7 else self.uniq("remark "), "author": r.choice(["me", "me", "", None])}
        if what == "conda":
            h, j = self.env[0]
            return r.choice([{"k": "conda", "hash": h, "json": j}, {"k": "condasaved", "hash": h}])
        if r.random() < read:
            return {"k": r.choice(["geturl", "meta"]), "u": u, "table": "visitseq"}
        return {"k": "seturl", "u": u, "url": self.uniq("file:///w/")} if r.random() < 0.5 else {
            "k": "update", "u": u, "field": r.choice(["visitseq_url", "telescope"]), "value": self.uniq("v")}

    def op(self, ref, own, ninit, bad=0.1, read=0.45, hot=None):
        r = self.r
        u = ref()
        if hot and r.random() < 0.8:
            return self.hot(hot, u, read)
        if r.random() < read:
            k = r.choice(["meta"] * 4 + ["geturl", "tagged", "comments", "fileurl", "filesha", "getstats", "condasaved", "software"] +
                         ["sims"] * 5 + ["simstats"] * 2 + ["simid", "yaml", "ro"])
            op = {"k": k}
            if k not in ("condasaved", "sims", "simstats", "simid", "ro"):
                op["u"] = u
            if k == "meta":
                op["table"] = r.choice(["visitseq", "visitseq", "simulations", "simulations_extra", "simulations_extra", "completed", "mixedvisitseq"] + (["bogus"] if r.random() < 0.1 else []))
            elif k == "tagged":
                op["tag"] = r.choice(TAGS)
            elif k in ("fileurl", "filesha"):
                op["type"] = r.choice(TYPES + (["visits"] if k == "fileurl" else []))
            elif k == "condasaved":
                op["hash"] = r.choice(self.env)[0]
            elif k == "software":
                op["packages"] = r.choice([None, None, [], ["rubin_sim"], ["rubin_sim", "nope", "pkg0"]])
            elif k in ("sims", "simstats"):
                if r.random() < 0.75:
                    op["tags"] = r.sample(TAGS, r.choice([0, 1, 1, 2]))
                if r.random() < 0.4:
                    op["telescope"] = r.choice(["simonyi", "auxtel"])
                if r.random() < 0.6:
                    op["max_simulation_age"] = r.choice([1, 2, 3, 30, 30])
                if r.random() < 0.85:
                    if k == "simstats":
                        op["day_obs"] = self.day()
                    else:
                        op["first_day_obs"] = self.day()
                        if r.random() < 0.6:
                            op["last_day_obs"] = [r.choice(FORMS), max(op["first_day_obs"][1], r.choice(self.days))]
            elif k == "simid":
                op["date"] = [r.choice(FORMS), (dt.datetime.fromtimestamp(self.t0 - 43200, dt.timezone.utc) - dt.timedelta(days=r.choice([0, 0, 1, 2]))).date().isoformat()]
                op["id"] = r.choice([1, 1, 2, "1", 3])
            return op
        k = r.choice(["seturl", "update", "update", "tag", "tag", "tag", "untag", "untag", "comment", "comment", "file", "file", "file", "stats", "stats", "conda"])
        if k == "stats":
            return dict(self.stats(bad), u=u)
        op = {"k": k}
        if k != "conda":
            op["u"] = u
        if k == "seturl":
            op["url"] = self.uniq("file:///w/")
        elif k == "update":
            f = r.choice(["visitseq_url", "telescope", "first_day_obs", "last_day_obs", "visitseq_url", "scheduler_version", "config_url"])
            op["field"] = f
            op["value"] = {"telescope": r.choice(["simonyi", "auxtel"]), "first_day_obs": r.choice(self.days[:2]), "last_day_obs": r.choice(self.days[2:])}.get(f, self.uniq("val"))
            if r.random() < bad:
                op["bad"] = True
                op["field"], op["value"] = r.choice([("nosuch", "x"), ("first_day_obs", "soon"), ("telescope", None)])
        elif k == "tag":
            op["tags"] = r.sample(TAGS, r.choice([1, 1, 2, 3]))
            if r.random() < 0.15:
                op["tags"] = op["tags"] + op["tags"][:1]
            elif r.random() < bad:
                op["tags"] = op["tags"] + ["nul\x00"]
                op["bad"] = True
        elif k == "untag":
            op["tag"] = r.choice(TAGS)
        elif k == "comment":
            op["text"] = self.uniq("remark 'x' % ") if r.random() < 0.6 else f"again {self.me}"
            if r.random() < 0.6:
                op["author"] = r.choice(["me", "O'Neil", "", None])
            if r.random() < bad:
                op["text"] = "nul\x00"
                op["bad"] = True
        elif k == "file":
            op["type"] = r.choice(TYPES) if r.random() > bad / 2 else "visits"
            op["sha"] = hashlib.sha256(self.uniq("f").encode()).hexdigest()
            op["url"] = self.uniq("file:///f/")
            if r.random() < 0.4:
                op["rp"] = True
            elif r.random() < bad / 2:
                op["bad"] = True
            if r.random() < 0.5:
                op["update"] = r.random() < 0.7
        elif k == "conda":
            op["hash"], op["json"] = r.choice(self.env)
        return op

    def ops(self, n, ninit, heavy=False, bad=0.1, read=0.45, wait=0.0, hot=None, rec=None):
        """heavy: everything on one shared sequence."""
        r = self.r
        own, out = [], []
        self.uniq("")
        self.me = self.n  # of this client

        def ref():
            x = r.random()
            if heavy and x < 0.85:
                return ["init", 0]
            if own and x < 0.5:
                return ["own", r.choice(own)]
            if x < 0.94:
                return ["init", r.randrange(ninit)]
            return ["none", r.randrange(3)]

        for _ in range(n):
            if r.random() < wait:
                out.append({"k": "wait", "t": r.choice([0.5, 60, 3000])})
                continue
            if r.random() < (rec if rec is not None else 0.1 if heavy else 0.25):
                op = self.record(ninit=ninit, bad=bad)
                if not op.get("bad"):
                    own.append(op["n"])
            else:
                op = self.op(ref, own, ninit, bad, read, hot)
            out.append(op)
        return out
