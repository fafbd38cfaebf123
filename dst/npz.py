"""Metric bundles built from small JSON specifications, and their canonical content."""

import hashlib
import random

import numpy as np

SLICERS = ["uni", "hp1", "hp2", "hp4", "sub", "oned", "onedbins", "points", "nd", "interval", "visit"]
CONSTR = ["", 'band = "r"', "night < 365 and airmass > 1.2", None]
LABELS = [None, "r band", "all/bands: 50%", "deep (drilling)", ""]
RUNS = ["baseline_v1", "my run.v2", "r"]


def simdata(seed=0, n=40):
    r = np.random.RandomState(seed)
    d = np.zeros(n, dtype=[("observationId", int), ("fieldRA", float), ("fieldDec", float), ("night", int), ("band", "U1"),
                           ("airmass", float), ("fiveSigmaDepth", float), ("seeingFwhmEff", float), ("visitTime", float),
                           ("observationStartMJD", float), ("rotSkyPos", float), ("scheduler_note", "U8")])
    d["observationId"] = np.arange(n)
    d["fieldRA"] = r.uniform(0, 360, n)
    d["fieldDec"] = r.uniform(-80, 10, n)
    d["night"] = np.sort(r.randint(1, 10, n))
    d["band"] = r.choice(list("ugrizy"), n)
    d["airmass"] = r.uniform(1, 2, n)
    d["fiveSigmaDepth"] = r.uniform(22, 25, n)
    d["seeingFwhmEff"] = r.uniform(0.5, 2, n)
    d["visitTime"] = 30.0
    d["observationStartMJD"] = 60000 + d["night"] + r.uniform(0, 0.4, n)
    d["scheduler_note"] = r.choice(["a", "b", ""], n)
    return d


def make_slicer(kind, seed=0):
    from rubin_sim.maf import slicers as S

    r = np.random.RandomState(seed)
    kw = {"verbose": False}
    if kind == "uni":
        s = S.UniSlicer(**kw)
    elif kind.startswith("hp"):
        s = S.HealpixSlicer(nside=int(kind[2:]), use_camera=False, use_cache=bool(seed % 2), **kw)
    elif kind == "sub":
        s = S.HealpixSubsetSlicer(4, np.sort(r.choice(192, 9, replace=False)), use_camera=False, **kw)
    elif kind == "oned":
        s = S.OneDSlicer(slice_col_name="night", bin_size=1 + seed % 3, **kw)
    elif kind == "onedbins":
        s = S.OneDSlicer(slice_col_name="airmass", bins=np.sort(r.uniform(1, 2, 6)), **kw)
    elif kind == "points":
        s = S.UserPointsSlicer(r.uniform(0, 360, 5), r.uniform(-80, 10, 5), use_camera=False, **kw)
    elif kind == "nd":
        s = S.NDSlicer(slice_col_list=["night", "airmass"], bins_list=[np.arange(0, 12, 4), np.array([1, 1.5, 2.0])], **kw)
    elif kind == "movie":
        s = S.MovieSlicer(slice_col_name="night", bins=np.arange(0, 12, 3), force_no_ffmpeg=True, **kw)
    elif kind == "interval":
        s = S.TimeIntervalSlicer(interval_seconds=43200, **kw)
    elif kind == "visit":
        s = S.VisitIntervalSlicer(**kw)
    s.setup_slicer(simdata(seed % 3, 12 if kind in ("visit", "interval") else 40))
    return s


def make_values(kind, spec, slicer, ver):
    import numpy.ma as ma

    ver = ver % spec.get("nval", 1000)  # the same values may be saved again with other information
    r = np.random.RandomState(spec["seed"] * 1000 + ver)
    n = int(np.prod(slicer.shape))
    vk = spec["values"]
    if vk == "plain":
        return r.uniform(-5, 5, n)
    if vk == "object":
        d = np.empty(n, dtype=object)
        for i in range(n):
            d[i] = [r.uniform(0, 1, i % 4), {"a": int(r.randint(9)), "b": "x%d" % ver}, None, "s%d" % r.randint(9), [1, 2.5, ver]][i % 5]
        m = r.rand(n) < 0.3
    elif vk == "wide":
        d = r.uniform(-5, 5, (n, 3))
        m = r.rand(n, 3) < 0.3
    elif vk == "float32":
        d = r.uniform(-5, 5, n).astype("f4")
        m = r.rand(n) < 0.3
    else:
        d = r.uniform(-5, 5, n)
        d[r.rand(n) < 0.1] = np.nan
        d[r.rand(n) < 0.1] = np.inf
        d[r.rand(n) < 0.1] = -0.0
        m = r.rand(n) < r.choice([0, 0.3, 1.0])
    return ma.MaskedArray(data=d, mask=m, fill_value=None if vk == "object" else slicer.badval)


def gen_spec(r, i):
    return {"slicer": r.choice(SLICERS), "seed": r.randrange(6), "name": r.choice(["Nvisits", "Med air/mass", "5sig: depth", "a.b"]) + f" m{i}",
            "run": r.choice(RUNS), "constraint": r.choice(CONSTR), "label": r.choice(LABELS),
            "values": r.choice(["float", "float", "float32", "object", "plain", "wide"]), "root": r.choice([None, None, None, f"own root{i}"]), "nval": r.choice([1, 2, 1000, 1000])}


def make_bundle(spec, ver):
    from rubin_sim.maf import metrics as M
    from rubin_sim.maf.metric_bundles import MetricBundle

    r = random.Random(spec["seed"] * 77 + ver)
    sl = make_slicer(spec["slicer"], spec["seed"])
    b = MetricBundle(M.MeanMetric(col="airmass", metric_name=spec["name"], units=r.choice(["mag", ""])), sl, spec["constraint"],
                     run_name=spec["run"], info_label=spec["label"], file_root=spec["root"],
                     plot_dict={"color_min": ver, "title": f"t{ver}", "percentile_clip": 95.0, "units": r.choice(["", "mag"])},
                     display_dict={"group": f"g{ver % 3}", "subgroup": r.choice([None, "s"]), "order": ver, "caption": r.choice([None, f"c{ver}"])})
    b.metric_values = make_values(spec["values"], spec, sl, ver)
    b.summary_values = r.choice([None, {}, {"Mean": ver * 1.5, "Rms": np.float64(ver)}])
    return b


def warm():
    import warnings

    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        for k in SLICERS:
            canon(make_bundle({"slicer": k, "seed": 1, "name": "n", "run": "r", "constraint": "", "label": None, "values": "float", "root": None}, 1))


# -- canonical content ----------------------------------------------------------
def show(x):
    """A canonical, comparable form of nearly anything found in a bundle."""
    if isinstance(x, np.ma.MaskedArray):
        m = np.ma.getmaskarray(x)
        return ["masked", list(x.shape), str(x.dtype), show(m), show(x.data[~m])]
    if isinstance(x, np.ndarray):
        if x.ndim == 0:
            return show(x[()])
        if x.dtype == object:
            return ["obj", list(x.shape), [show(y) for y in x.ravel()]]
        h = hashlib.sha256(np.ascontiguousarray(x).tobytes()).hexdigest()[:16]
        return ["arr", list(x.shape), str(x.dtype), h]
    if isinstance(x, dict):
        return {str(k): show(v) for k, v in sorted(x.items(), key=lambda kv: str(kv[0]))}
    if isinstance(x, (list, tuple)):
        return [show(y) for y in x]
    if isinstance(x, (bool, np.bool_)):
        return bool(x)
    if isinstance(x, (int, np.integer)):
        return int(x)
    if isinstance(x, (float, np.floating)):
        return repr(float(x))
    if x is None or isinstance(x, str):
        return x if x is None else str(x)
    return str(type(x).__name__)


def canon(b, comment=""):
    s = b.slicer
    # summary_values: nothing computed may be stored as None or as an empty dict
    return {"metric": b.metric.name, "run": b.run_name, "constraint": b.constraint, "info": b.info_label + comment,
            "values": show(np.ma.masked_array(b.metric_values)),
            "slicer": [type(s).__name__, s.slicer_name, show(s.nslice), show(np.atleast_1d(s.shape).tolist()), show(s.slice_points)],
            "slicer_attr": {k: show(getattr(s, k, None)) for k in ("nside", "slice_col_name", "slice_col_list", "hpid")},
            "plot": show(b.plot_dict), "display": {k: "NULL" if v is None else v for k, v in show(b.display_dict).items()}, "summary": show(b.summary_values or {})}


def diff(a, b):
    return [k for k in a if a[k] != b[k]] if isinstance(a, dict) and isinstance(b, dict) else "all"
