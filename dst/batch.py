"""Metric batches: bundles from specifications, independent reference values."""

import os
import sqlite3

import numpy as np

from . import npz

CONSTR = ["", 'band = "r"', "night < 6", 'band = "nope"', "nosuchcolumn > 3", "airmass < 1.6"]


def make_simdb(path, seed, n=45):
    r = np.random.RandomState(100 + seed)
    con = sqlite3.connect(path)
    con.execute("create table observations (observationId int, fieldRA float, fieldDec float, night int, band text, airmass float,"
                " fiveSigmaDepth float, altitude float, observationStartMJD float, visitTime float, rotSkyPos float)")
    # clustered pointings, so that slices share visits
    cen = r.uniform(0, 360, 4), r.uniform(-60, 0, 4)
    rows = []
    for i in range(n):
        c = r.randint(4)
        night = int(r.randint(1, 10))
        rows.append((i, float((cen[0][c] + r.uniform(-8, 8)) % 360), float(cen[1][c] + r.uniform(-8, 8)), night, str(r.choice(list("grz"))),
                     float(r.uniform(1, 2)), float(r.uniform(22, 25)), float(r.uniform(30, 90)), 60000 + night + float(r.uniform(0, 0.4)), 30.0, 0.0))
    con.executemany("insert into observations values (?,?,?,?,?,?,?,?,?,?,?)", rows)
    con.commit()
    con.close()


_made = False


def classes():
    """Harness metric and map classes (registered once per process)."""
    global _made, SimVecMetric, SimMapMetric, SimMap, SimStackerA, SimStackerB
    if _made:
        return
    from rubin_sim.maf.maps import BaseMap
    from rubin_sim.maf.metrics import BaseMetric

    class SimVecMetric(BaseMetric):
        """A complex metric with reduce functions."""

        def __init__(self, col="airmass", metric_name=None, **kw):
            super().__init__(col=col, metric_name=metric_name, units="", **kw)

        def run(self, data_slice, slice_point=None):
            v = data_slice[self.colname]
            if len(v) == 3:
                return self.badval
            return {"n": len(v), "max": float(np.max(v)), "all": np.sort(v)}

        def reduce_n(self, val):
            return val["n"]

        def reduce_spread(self, val):
            if val["n"] == 1:
                return self.badval
            return float(val["all"][-1] - val["all"][0])

    class SimMapMetric(BaseMetric):
        """Depends on a map at the slice point."""

        def __init__(self, metric_name=None, **kw):
            super().__init__(col="airmass", metric_name=metric_name, units="", **kw)

        def run(self, data_slice, slice_point=None):
            return float(len(data_slice) * slice_point["simmap"])

    class SimMap(BaseMap):
        def __init__(self, factor=1):
            self.keynames = ["simmap", "simother"] if factor == 3 else ["simmap"]
            self.factor = factor

        def run(self, slice_points):
            for k in self.keynames:
                slice_points[k] = np.ones(len(np.atleast_1d(slice_points["sid"]))) * self.factor
            return slice_points

    from rubin_sim.maf.stackers import BaseStacker

    class SimStackerA(BaseStacker):
        cols_added = ["zenithDistance"]

        def __init__(self, factor=2.0):
            self.units = [""]
            self.cols_req = ["airmass"]
            self.factor = factor

        def _run(self, sim_data, cols_present=False):
            if cols_present:
                return sim_data
            sim_data["zenithDistance"] = sim_data["airmass"] * self.factor
            return sim_data

    class SimStackerB(BaseStacker):
        cols_added = ["zenithDistance"]

        def __init__(self):
            self.units = [""]
            self.cols_req = ["airmass"]

        def _run(self, sim_data, cols_present=False):
            if cols_present:
                return sim_data
            sim_data["zenithDistance"] = sim_data["airmass"] + 100
            return sim_data

    _made = True


_slicers = {}


def make_slicer(spec, shared=None):
    """A new slicer; spatial ones can be shared between bundles."""
    from rubin_sim.maf import slicers as S

    kind, seed = spec["slicer"], spec["sseed"]
    if shared is not None and kind in ("hp2c", "hp2", "points", "uni"):
        key = (kind, seed)
        if key not in shared:
            shared[key] = make_slicer(spec)
        return shared[key]
    r = np.random.RandomState(seed)
    kw = {"verbose": False}
    if kind == "uni":
        return S.UniSlicer(**kw)
    if kind == "hour":
        return S.HourglassSlicer(**kw)
    if kind in ("hp2", "hp2c"):
        return S.HealpixSlicer(nside=2 + 2 * (seed % 2), use_camera=False, radius=20.0, use_cache=kind == "hp2c", **kw)
    if kind == "sub":
        return S.HealpixSubsetSlicer(4, np.sort(r.choice(192, 40, replace=False)), use_camera=False, radius=20.0, **kw)
    if kind == "oned":
        return S.OneDSlicer(slice_col_name="night", bins=np.arange(0.5, 9.5, 1 + seed % 2), **kw)
    if kind == "onedauto":
        return S.OneDSlicer(slice_col_name="airmass", bin_size=0.1 + 0.2 * (seed % 2), **kw)
    if kind == "points":
        return S.UserPointsSlicer(r.uniform(0, 360, 15), r.uniform(-60, 0, 15), use_camera=False, radius=25.0, **kw)
    if kind == "nd":
        return S.NDSlicer(slice_col_list=["night", "airmass"] if seed % 2 else ["airmass", "night"],
                          bins_list=[np.array([1, 1.5, 2.1])] * 2, **kw)


def gen_spec(r, i):
    kind = r.choice(["count", "mean", "max", "vec", "vec", "zd", "zd", "map", "hpid", "rms", "stk"])
    spec = {"kind": kind, "slicer": r.choice(["uni", "hp2", "hp2", "hp2c", "sub", "oned", "onedauto", "points", "nd"]), "sseed": r.randrange(2),
            "constraint": r.choice(CONSTR[:3] if r.random() < 0.8 else CONSTR), "cfg": r.randrange(3), "col": r.choice(["airmass", "fiveSigmaDepth"]),
            "sum": r.choice([None, ["mean"], ["mean", "count"], ["mean0", "max"], ["mean0", "mean", "count"], []]), "label": r.choice([None, f"lab{i}"]),
            "own": r.random() < 0.2}
    if kind == "map":
        spec["slicer"] = r.choice(["hp2", "points", "hp2"])
    if kind == "vec" and spec["slicer"] == "hp2c":
        spec["slicer"] = "hp2"
    return spec


def summaries(names):
    from rubin_sim.maf import metrics as M

    if names is None:
        return None
    mk = {"mean": lambda: M.MeanMetric(), "count": lambda: M.CountMetric(), "mean0": lambda: M.MeanMetric(mask_val=0, metric_name="Mean0"),
          "max": lambda: M.MaxMetric()}
    return [mk[n]() for n in names]


def make_bundle(spec, i, shared=None):
    from rubin_sim.maf import metrics as M
    from rubin_sim.maf import stackers as ST
    from rubin_sim.maf.metric_bundles import MetricBundle

    classes()
    k = spec["kind"]
    stk, maps = None, None
    # the metric name may be shared by bundles (label and slicer then differ)
    name = f"{k} {spec['col']}"
    if k == "count":
        m = M.CountMetric(col="observationId", metric_name=name)
    elif k == "mean":
        m = M.MeanMetric(col=spec["col"], metric_name=name)
    elif k == "max":
        m = M.MaxMetric(col=spec["col"], metric_name=name)
    elif k == "rms":
        m = M.RmsMetric(col=spec["col"], metric_name=name)
    elif k == "vec":
        m = SimVecMetric(col=spec["col"], metric_name=name)
    elif k == "zd":
        m = M.MeanMetric(col="zenithDistance", metric_name=name)
        stk = [ST.ZenithDistStacker(alt_col="altitude", degrees=bool(spec["cfg"] % 2))]
    elif k == "hpid":
        m = M.MaxMetric(col="ring_healpix", metric_name=name)
        stk = [ST.HealpixStacker(nside=2 ** (1 + spec["cfg"]))]
    elif k == "stk":  # two stackers of the user's that set the same column
        m = M.MaxMetric(col="zenithDistance", metric_name=name)
        stk = [SimStackerB() if spec["cfg"] == 2 else SimStackerA(factor=2.0 + spec["cfg"])]
    elif k == "map":
        m = SimMapMetric(metric_name=name)
        maps = [SimMap(factor=1 + spec["cfg"])]
    return MetricBundle(m, make_slicer(spec, shared), spec["constraint"], stacker_list=stk, maps_list=maps, run_name="run1", info_label=label(spec, i),
                        summary_metrics=summaries(spec["sum"]), display_dict={"group": "g", "order": i, "caption": f"cap{i}"},
                        plot_dict={"title": f"t{i}"}, file_root=f"own_{i}" if spec["own"] and k != "vec" else None)


def label(spec, i):
    return spec["label"] if spec["label"] is not None else f"b{i}"


def result(b):
    """What the batch computed for one bundle."""
    if b.metric_values is None:
        return None
    return {"values": npz.show(b.metric_values), "summary": npz.show(b.summary_values or {}), "metric": b.metric.name, "constraint": b.constraint,
            "info": b.info_label, "slicer": b.slicer.slicer_name, "run": b.run_name, "order": npz.show(b.display_dict["order"])}


def group_results(g):
    out = {}
    for b in g.bundle_dict.values():
        if b.file_root in out:
            out[b.file_root] = "twice"
        else:
            out[b.file_root] = result(b)
    return out


# -- independent values --------------------------------------------------------
def visits(simdb, constraint):
    con = sqlite3.connect(simdb)
    con.row_factory = sqlite3.Row
    q = "select * from observations" + (f" where {constraint}" if constraint else "")
    try:
        rows = [dict(x) for x in con.execute(q)]
    except sqlite3.OperationalError:
        rows = []
    con.close()
    return rows


def angsep(ra1, de1, ra2, de2):
    return np.degrees(np.arccos(np.clip(np.sin(de1) * np.sin(de2) + np.cos(de1) * np.cos(de2) * np.cos(ra1 - ra2), -1, 1)))


def slices(spec, rows):
    """Indexes of the visits of each slice, by the definition of the slicer."""
    import healpy as hp

    k, seed = spec["slicer"], spec["sseed"]
    n = len(rows)
    r = np.random.RandomState(seed)
    if k in ("uni", "hour"):
        return [list(range(n))]
    if k == "oned":
        e = np.arange(0.5, 9.5, 1 + seed % 2)
        return [[i for i in range(n) if a <= rows[i]["night"] < b] for a, b in zip(e[:-1], e[1:])]
    if k in ("hp2", "hp2c"):
        nside = 2 + 2 * (seed % 2)
        th, ph = hp.pix2ang(nside, np.arange(hp.nside2npix(nside)))
        pts, rad = list(zip(ph, np.pi / 2 - th)), 20.0
    elif k == "points":
        pts, rad = list(zip(np.radians(r.uniform(0, 360, 15)), np.radians(r.uniform(-60, 0, 15)))), 25.0
    else:
        return None
    ra = np.radians([x["fieldRA"] for x in rows])
    de = np.radians([x["fieldDec"] for x in rows])
    return [list(np.where(angsep(p[0], p[1], ra, de) <= rad)[0]) for p in pts]


def independent(spec, simdb):
    """Values by definition, None where masked; or None if not modelled."""
    import healpy as hp

    rows = visits(simdb, spec["constraint"])
    if not rows or spec["kind"] == "vec":
        return None
    sl = slices(spec, rows)
    if sl is None:
        return None
    out = []
    for idx in sl:
        v = [rows[i] for i in idx]
        if not v:
            out.append(None)
            continue
        k = spec["kind"]
        x = np.array([q[spec["col"]] for q in v])
        if k == "count":
            y = len(v)
        elif k == "mean":
            y = x.mean()
        elif k == "max":
            y = x.max()
        elif k == "rms":
            y = np.std(x)
        elif k == "map":
            y = len(v) * (1 + spec["cfg"])
        elif k == "stk":
            z = np.array([q["airmass"] for q in v])
            y = (z + 100).max() if spec["cfg"] == 2 else (z * (2.0 + spec["cfg"])).max()
        elif k == "hpid":
            y = max(int(hp.ang2pix(2 ** (1 + spec["cfg"]), np.pi / 2 - np.radians(q["fieldDec"]), np.radians(q["fieldRA"]))) for q in v)
        elif k == "zd":
            z = np.array([q["altitude"] for q in v])
            y = np.mean(90 - z) if spec["cfg"] % 2 else np.mean(np.pi / 2 - z)
        out.append(float(y))
    return out


def alone(specs, simdb, out):
    """Each bundle run on its own, in its own directory."""
    import warnings

    from rubin_sim.maf.metric_bundles import MetricBundleGroup

    warnings.simplefilter("ignore")
    res, bad, roots = {}, [], []
    for i, spec in enumerate(specs):
        b = make_bundle(spec, i)
        g = MetricBundleGroup({"x": b}, simdb, out_dir=os.path.join(out, f"alone{i}"), results_db=None, save_early=False)
        g.run_all()
        roots.append(b.file_root)
        for root, v in group_results(g).items():
            if root in res:
                res[root] = "twice"
            res[root] = v
        ind = independent(spec, simdb)
        if ind is not None:
            if b.metric_values is None:
                bad.append(f"{spec}: no values")
            else:
                m = np.ma.getmaskarray(b.metric_values)
                if len(ind) != len(m) or any((x is None) != bool(m[j]) or (x is not None and not np.isclose(x, b.metric_values.data[j], rtol=1e-9, atol=1e-9))
                                             for j, x in enumerate(ind)):
                    bad.append(f"{spec}: {ind} but computed {[None if m[j] else b.metric_values.data[j] for j in range(len(m))]}"[:900])
        if b.metric_values is not None and spec["kind"] != "vec" and not summary_ok(spec, b):
            bad.append(f"{spec}: summary {b.summary_values} of {b.metric_values}"[:900])
    return {"res": res, "bad": bad, "roots": roots}


def summary_ok(spec, b):
    """Summary values by their definition."""
    v = [None if m else float(x) for x, m in zip(b.metric_values.data, np.ma.getmaskarray(b.metric_values))]
    ok = [x for x in v if x is not None]
    v0 = [0.0 if x is None else x for x in v]
    want = {}
    for s in spec["sum"] or []:
        if s == "mean0":
            want["Mean0"] = np.mean(v0)
        elif not ok:
            want[s.capitalize()] = b.slicer.badval
        else:
            want[s.capitalize()] = {"mean": np.mean, "count": len, "max": np.max}[s](ok)
    got = dict(b.summary_values or {})
    if len(v) == 1 and ok:
        want["Identity"] = ok[0]  # the single value is a summary in itself
        got.setdefault("Identity", ok[0])
    return set(got) == set(want) and all(np.isclose(got[k], want[k], rtol=1e-9, atol=1e-9) for k in want)
