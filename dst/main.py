"""Command line of the simulator: run, replay, minimise, report."""

import argparse
import gc
import hashlib
import importlib
import json
import multiprocessing
import os
import re
import signal
import sys
import time
import traceback
import warnings

os.environ.pop("LD_PRELOAD", None)

from . import core  # noqa: E402

core.install_sleep()
core.shim()
warnings.simplefilter("ignore")

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def load(pid):
    mod = importlib.import_module("dst.checks." + pid.lower())
    return mod


def seed_of(base, pid, i):
    return int.from_bytes(hashlib.sha256(f"{base}/{pid}/{i}".encode()).digest()[:6], "big")


def jdump(x):
    return json.dumps(x, sort_keys=True)


# -- worker side -------------------------------------------------------------
CHECK = None
CTX = None


class Ctx:
    def __init__(self, wid):
        self.wid = wid
        self.base = os.path.join(os.environ["DST_WORK"], f"w{wid}")
        os.makedirs(self.base, exist_ok=True)
        os.chmod(self.base, 0o711)
        self.res = {}


def _winit(counter):
    global CTX
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    with counter.get_lock():
        wid = counter.value
        counter.value += 1
    CTX = Ctx(wid)
    if hasattr(CHECK, "worker_init"):
        CHECK.worker_init(CTX)


def run_scn(scn):
    """Run one scenario; returns the result document."""
    try:
        scn = json.loads(jdump(scn))
        res = CHECK.run(scn, CTX)
        return res
    except core.HarnessError as e:
        return {"harness": str(e)[-3000:], "violations": []}
    except Exception as e:
        return {"harness": "".join(traceback.format_exception(e))[-3000:], "violations": []}


def _wtask(arg):
    idx, seed, tier = arg
    try:
        scn = CHECK.generate(seed, tier)
    except Exception as e:
        return idx, None, {"harness": "".join(traceback.format_exception(e))[-3000:], "violations": []}
    t = time.monotonic()
    res = run_scn(scn)
    res["wall"] = time.monotonic() - t
    keep = scn if (res["violations"] or idx < 3 or "harness" in res) else None
    return idx, keep, res


def _wscn(scn):
    return run_scn(scn)


# -- known findings ------------------------------------------------------------
def known_findings(pid):
    """Lines: known: property=<id> match=<regex over 'class: message'> -- text"""
    out = []
    path = os.path.join(HERE, "KNOWN_FINDINGS.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"known: property=(\S+) match=(.*?) -- (.*)$", line.strip())
            if m and m.group(1) == pid:
                out.append((re.compile(m.group(2)), m.group(3)))
    return out


def split_known(viol, known):
    new, old = [], []
    for v in viol:
        s = f"{v['class']}: {v['msg']}"
        for rx, text in known:
            if rx.search(s):
                old.append(text)
                break
        else:
            new.append(v)
    return new, old


# -- minimisation --------------------------------------------------------------
def shrink_candidates(scn, choices):
    """Simpler scenarios, most radical first."""
    out = []

    def c():
        return json.loads(jdump(scn))

    cl = scn.get("clients", [])
    for i in range(len(cl)):
        if len(cl) > 1:
            d = c()
            del d["clients"][i]
            out.append(d)
    for i in range(len(cl)):
        ops = cl[i]["ops"]
        n = len(ops)
        size = n // 2
        while size >= 1:
            for s in range(0, n, size):
                d = c()
                del d["clients"][i]["ops"][s : s + size]
                if d["clients"][i]["ops"] or len(cl) > 1:
                    out.append(d)
            size //= 2
    for i in range(len(cl)):
        for j, op in enumerate(cl[i]["ops"]):
            if op.get("fault"):
                d = c()
                del d["clients"][i]["ops"][j]["fault"]
                out.append(d)
                f = op["fault"]
                for at in (1, f["at"] // 2, f["at"] - 1):
                    if 1 <= at < f["at"]:
                        d = c()
                        d["clients"][i]["ops"][j]["fault"]["at"] = at
                        out.append(d)
    ch = scn.get("choices")
    if ch:
        d = c()
        d["choices"] = []
        out.append(d)
        size = max(1, len(ch) // 2)
        while size >= 1:
            for s in range(0, len(ch), size):
                d = c()
                if any(d["choices"][s : s + size]):
                    d["choices"][s : s + size] = [0] * len(d["choices"][s : s + size])
                    out.append(d)
            size //= 2
        t = list(ch)
        while t and t[-1] == 0:
            t.pop()
        if len(t) < len(ch):
            d = c()
            d["choices"] = t
            out.append(d)
    for i in range(len(cl)):
        if cl[i].get("skew"):
            d = c()
            d["clients"][i]["skew"] = 0
            out.append(d)
    if hasattr(CHECK, "shrink"):
        out.extend(CHECK.shrink(scn))
    uniq, seen = [], {jdump(scn)}
    for d in out:
        k = jdump(d)
        if k not in seen:
            seen.add(k)
            uniq.append(d)
    return uniq


def same_class(res, cls, known):
    new, _ = split_known(res.get("violations", []), known)
    return any(v["class"] == cls for v in new)


def minimise(pool, scn, res, cls, known, seconds):
    t_end = time.monotonic() + seconds
    # freeze the schedule that failed
    d = json.loads(jdump(scn))
    d["choices"] = res.get("choices", [])
    r = pool.apply(_wscn, (d,))
    if same_class(r, cls, known):
        scn, res = d, r
    tried = 0
    progress = True
    while progress and time.monotonic() < t_end:
        progress = False
        cands = shrink_candidates(scn, res.get("choices", []))
        for s in range(0, len(cands), 8):
            if time.monotonic() > t_end:
                break
            batch = cands[s : s + 8]
            rs = pool.map(_wscn, batch, chunksize=1)
            tried += len(batch)
            hit = next((k for k, x in enumerate(rs) if same_class(x, cls, known)), None)
            if hit is not None:
                scn, res = batch[hit], rs[hit]
                progress = True
                break
    return scn, res, tried


# -- main ------------------------------------------------------------------------
def main():
    global CHECK
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or "1"))
    ap.add_argument("--runs", type=int)
    ap.add_argument("--workers", type=int, default=8)
    ap.add_argument("--replay")
    ap.add_argument("--digests", help="write one line per run: index digest")
    ap.add_argument("--only", type=int, help="run one index and print")
    ap.add_argument("--wall", type=float)
    ap.add_argument("--keep-going", action="store_true")
    ap.add_argument("--no-min", action="store_true")
    ap.add_argument("--no-evidence", action="store_true")
    a = ap.parse_args()
    t0 = time.monotonic()
    if a.tier not in ("quick", "thorough"):
        a.tier = "quick"
    CHECK = load(a.prop)
    pid = CHECK.PROPERTY
    try:
        CHECK.warm()
    except Exception as e:  # the runs themselves will tell
        print("warm-up failed:", repr(e)[:300])
    gc.collect()
    gc.freeze()
    known = known_findings(pid)
    rc = 2
    if hasattr(CHECK, "global_init"):
        CHECK.global_init()
    counter = multiprocessing.Value("i", 0)
    mp = multiprocessing.get_context("fork")
    pool = mp.Pool(1 if (a.replay or a.only is not None) else a.workers, _winit, (counter,))
    try:
        if a.replay:
            rc = do_replay(a, pool, known)
        elif a.only is not None:
            scn = CHECK.generate(seed_of(a.seed, pid, a.only), a.tier)
            res = pool.apply(_wscn, (scn,))
            print(json.dumps(scn, indent=1))
            print(json.dumps(res, indent=1))
            rc = 1 if res["violations"] else 0
        else:
            rc = do_search(a, pool, known, pid, t0)
    finally:
        pool.terminate()
        pool.join()
        if hasattr(CHECK, "global_done"):
            CHECK.global_done()
    sys.stdout.flush()
    sys.stderr.flush()
    sys.exit(rc)


def do_replay(a, pool, known):
    doc = json.load(open(a.replay))
    res = pool.apply(_wscn, (doc["scenario"],))
    if "harness" in res:
        print("HARNESS ERROR", res["harness"])
        return 2
    new, old = split_known(res["violations"], known)
    for v in new:
        print(f"{v['class']}: {v['msg']}")
    want = doc.get("digest")
    if new:
        same = res["digest"] == want
        print("replay digest", res["digest"], "as recorded" if same else f"differs from recorded {want}")
        print(f"VIOLATION property={doc['property']} replay={a.replay}")
        return 1
    print("replay: no violation")
    return 0


def do_search(a, pool, known, pid, t0):
    n = a.runs or CHECK.RUNS[a.tier]
    wall = a.wall or CHECK.WALL.get(a.tier, 300 if a.tier == "quick" else 1800)
    t_end = time.monotonic() + wall
    tasks = ((i, seed_of(a.seed, pid, i), a.tier) for i in range(n))
    tot = dict(runs=0, seams=0, ops=0, ok_ops=0, crashes=0, simt=0.0)
    faults, notes = {}, {}
    traces, nontriv = set(), set()
    fails, harness, knownhits = [], [], {}
    samples = []
    digs = {}
    walls = []
    stopped = None
    fail_t = None
    it = pool.imap_unordered(_wtask, tasks, chunksize=1)
    while True:
        try:
            idx, scn, res = it.next(timeout=max(1.0, t_end - time.monotonic() + 150))
        except StopIteration:
            break
        except multiprocessing.TimeoutError:
            print("HARNESS ERROR: a worker made no progress")
            return 2
        tot["runs"] += 1
        if "harness" in res:
            harness.append((idx, res["harness"]))
            if a.keep_going:
                print("HARNESS", idx, res["harness"])
            if len(harness) > 5:
                break
            continue
        walls.append(res["wall"])
        for k in ("seams", "ops", "ok_ops", "crashes", "simt"):
            tot[k] += res.get(k, 0)
        for k, v in res.get("faults", {}).items():
            faults[k] = faults.get(k, 0) + v
        for k, v in res.get("notes", {}).items():
            notes[k] = notes.get(k, 0) + v
        traces.add(res["trace"])
        if res.get("ops", 0) >= 2 and res.get("ok_ops", 0) >= 1 and res.get("seams", 0) >= 2:
            nontriv.add(res["trace"])
        digs[idx] = res["digest"]
        if idx < 3 and scn is not None:
            samples.append({"index": idx, "seed": seed_of(a.seed, pid, idx), "scenario": scn,
                            "digest": res["digest"], "seams": res["seams"], "faults": res["faults"]})
        new, old = split_known(res["violations"], known)
        for o in old:
            knownhits[o] = knownhits.get(o, 0) + 1
        if new:
            fails.append((idx, scn, res, new[0]["class"], new))
            if a.keep_going:
                print("FAIL", idx, [(v["class"], v["msg"][:300]) for v in new], flush=True)
            elif fail_t is None:
                fail_t = time.monotonic()
        if fail_t is not None and time.monotonic() > fail_t + 3:
            stopped = "violation"
            break
        if time.monotonic() > t_end:
            stopped = "wall"
            break
    dt = time.monotonic() - t0
    if a.digests:
        with open(a.digests, "w") as f:
            for i in sorted(digs):
                f.write(f"{i} {digs[i]}\n")
    if harness and not fails:
        print("HARNESS ERROR in run", harness[0][0])
        print(harness[0][1])
        return 2
    replay = None
    if fails:
        if stopped:
            # idle the pool: outstanding tasks would compete with minimisation
            pool.terminate()
            pool.join()
            counter = multiprocessing.Value("i", 100)
            pool2 = multiprocessing.get_context("fork").Pool(8, _winit, (counter,))
        else:
            pool2 = pool
        fails.sort(key=lambda x: x[0])
        idx, scn, res, cls, new = fails[0]
        tried = 0
        if not a.no_min:
            scn, res, tried = minimise(pool2, scn, res, cls, known, 60 if a.tier == "quick" else 180)
        new, _ = split_known(res["violations"], known)
        v = next((x for x in new if x["class"] == cls), new[0])
        os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
        replay = os.path.join(HERE, "replays", f"{pid}-{a.seed}-{idx}.json")
        with open(replay, "w") as f:
            json.dump({"property": pid, "seed": a.seed, "index": idx, "run_seed": seed_of(a.seed, pid, idx),
                       "violation": v, "digest": res["digest"], "scenario": scn,
                       "minimiser_runs": tried, "trace": res.get("log", [])}, f, indent=1)
        if stopped:
            pool2.terminate()
            pool2.join()
    if not a.no_evidence:
        write_evidence(a, pid, n, tot, faults, notes, traces, nontriv, samples, dt, fails, knownhits, stopped)
    rate = tot["runs"] / max(dt, 1e-9) * 3600
    print(f"{pid} {a.tier} seed={a.seed}: {tot['runs']} runs, {len(traces)} distinct traces, "
          f"{tot['seams']} seam crossings, {tot['crashes']} crashes, faults {json.dumps(faults, sort_keys=True)}, "
          f"{dt:.0f}s ({rate:.0f} runs/h)")
    for o, k in sorted(knownhits.items()):
        print(f"KNOWN-FINDING: property={pid} {o} (seen in {k} runs)")
    if fails:
        print(f"{v['class']}: {v['msg']}")
        print(f"VIOLATION property={pid} replay={replay}")
        return 1
    if stopped == "wall" and tot["runs"] < max(20, n // 20):
        print("HARNESS ERROR: too few runs within the wall limit")
        return 2
    return 0


def write_evidence(a, pid, n, tot, faults, notes, traces, nontriv, samples, dt, fails, knownhits, stopped):
    cov = {
        "evaluations": tot["runs"],
        "distinct_nontrivial": len(nontriv),
        "rule": "one evaluation = one simulated run of a scenario generated from one seed (operations, fault "
        "placement, schedule, clocks); distinct = different sequence of (process, seam, fault) events; "
        "non-trivial = at least two operations, one acknowledged, and two seam crossings. " + getattr(CHECK, "RULE", ""),
        "samples": samples,
        "runs_planned": n,
        "seeds_per_hour": round(tot["runs"] / max(dt, 1e-9) * 3600),
        "simulated_seconds": round(tot["simt"], 1),
        "seam_crossings": tot["seams"],
        "operations": tot["ops"],
        "operations_acknowledged": tot["ok_ops"],
        "process_crashes": tot["crashes"],
        "faults_fired": faults,
        "probes": notes,
        "distinct_traces": len(traces),
        "components_real": CHECK.REAL,
        "components_stub": CHECK.STUB,
        "known_findings_seen": knownhits,
        "stopped": stopped,
    }
    doc = {
        "property": pid,
        "tier": a.tier,
        "seed": a.seed,
        "level": CHECK.LEVEL,
        "coverage": cov,
        "assumptions": CHECK.ASSUME,
        "wall_s": round(dt, 2),
        "violations": len(fails),
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", f"{pid}.json"), "w") as f:
        json.dump(doc, f, indent=1)


if __name__ == "__main__":
    main()
