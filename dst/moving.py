"""Moving objects: small populations, observations, bundles and reference values."""

import glob
import os
import warnings

import numpy as np

from . import npz

CONSTR = [None, None, "night < 20", 'band == "r"', "night > 1000"]
KINDS = ["nobs", "nights", "arc", "nosingle", "disc", "disc2", "magic", "highvel", "hvnights", "inv", "color", "act", "lat"]
JOINABLE = {"DiscoveryTime", "DiscoveryNChances"}

DT = [("obj_id", int), ("observationStartMJD", float), ("night", int), ("ra", float), ("dec", float), ("dradt", float), ("ddecdt", float),
      ("magV", float), ("dmag_color", float), ("dmag_trail", float), ("dmag_detect", float), ("fiveSigmaDepth", float), ("seeingFwhmGeom", float),
      ("band", "U1"), ("visitExposureTime", float), ("helio_dist", float), ("geo_dist", float), ("phase", float), ("solarElong", float)]


def oid(scn, i):
    return "obj" + "17"[i % 2] * (i // 2 + 1) if scn["ids"] == "str" else i * 7 + 3


def population(scn):
    """Orbits and observations (all magnitudes well away from the limits)."""
    r = np.random.RandomState(scn["pop"])
    n = scn["n"]
    orb = []
    for i in range(n):
        orb.append((oid(scn, i), r.uniform(0.8, 3), r.uniform(0, 0.5), r.uniform(0, 40), r.uniform(0, 360), r.uniform(0, 360), 60000 + r.uniform(0, 999),
                    [20.0, 20.5, 21.0][r.randint(3)]))
    rows = []
    for i in range(n):
        if i in scn["unseen"]:
            continue
        nights = sorted(r.choice(45, r.randint(1, 14), replace=False))
        for nt in nights:
            for k in range(r.randint(1, 4)):
                rows.append((oid(scn, i), 60980 + int(nt) + 0.1 + 0.02 * k + 0.001 * i, int(nt) + 1, r.uniform(0, 360), r.uniform(-60, 10),
                             r.uniform(-2, 2), r.uniform(-2, 2), r.randint(18, 26) + 0.03, 0.1, 0.2, 0.2 + r.randint(0, 4), r.randint(22, 25) + 0.5,
                             0.8, "gri"[r.randint(3)], 30.0, 2.0, 1.5, 10.0 + r.uniform(0, 40), 120.0))
    rows.sort(key=lambda x: (x[1], str(x[0])))
    dt = [("obj_id", "U8" if scn["ids"] == "str" else int)] + DT[1:]
    return orb, np.array(rows, dtype=dt)


def write_population(scn, d):
    orb, obs = population(scn)
    with open(os.path.join(d, "pop.txt"), "w") as f:
        f.write("obj_id q e inc Omega argPeri tPeri epoch H g\n")
        for o in orb:
            f.write(f"{o[0]} {o[1]:.5f} {o[2]:.5f} {o[3]:.4f} {o[4]:.4f} {o[5]:.4f} {o[6]:.4f} 60676.0 {o[7]:.2f} 0.15\n")
    with open(os.path.join(d, "other.txt"), "w") as f:  # another population with the same number of objects
        f.write("obj_id q e inc Omega argPeri tPeri epoch H g\n")
        for o in orb:
            f.write(f"{o[0]} {o[1] + 0.5:.5f} {o[2]:.5f} {o[3]:.4f} {o[4]:.4f} {o[5]:.4f} {o[6]:.4f} 60676.0 {o[7]:.2f} 0.15\n")
    np.savez(os.path.join(d, "obs.npz"), object_observations=obs)
    part = {oid(scn, i): p for i, p in enumerate(scn["part"])}
    for s in range(scn["splits"]):
        keep = np.array([part[x] == s for x in obs["obj_id"].tolist()], bool)
        np.savez(os.path.join(d, f"obs_{s}.npz"), object_observations=obs[keep])


def slicer_of(scn, d, split, orbits="pop.txt", hv=None):
    from rubin_sim.maf.slicers import MoObjSlicer

    h = hv or scn["H"]
    s = MoObjSlicer(h_range=None if h is None else np.array(h))
    s.setup_slicer(orbit_file=os.path.join(d, orbits), obs_file=os.path.join(d, "obs.npz" if split is None else f"obs_{split}.npz"))
    return s


def lat_metric():
    """A user's metric, which needs a column of an optional stacker."""
    from rubin_sim.maf.metrics import BaseMoMetric
    from rubin_sim.maf.metrics.mo_metrics import BaseChildMetric

    class LatMetric(BaseMoMetric):
        def run(self, sso_obs, orb, hval):
            return float(np.sum(np.abs(sso_obs["ecLat"]))) or self.badval

    class LatChildMetric(BaseChildMetric):
        def run(self, sso_obs, orb, hval, metric_values):
            return metric_values + 10 * hval

    m = LatMetric(metric_name="Latitude")
    return m, {"H": LatChildMetric(m, metric_name="LatitudeH")}


def summaries(scn):
    from rubin_sim.maf.metrics import BaseMoMetric, MeanValueAtHMetric

    class TotalMetric(BaseMoMetric):
        def run(self, metric_vals, h_vals):
            return float(np.sum(np.ma.filled(metric_vals, -1.0)) + np.sum(h_vals))

    return [TotalMetric(metric_name="Total")] + ([] if scn["H"] is None else [MeanValueAtHMetric(h_mark=scn["H"][0])])


def make_metric(spec):
    from rubin_sim.maf import metrics as M

    k, snr = spec["kind"], spec["snr"]
    nm = f"{ {'nobs': 'NObs', 'nights': 'NNights', 'arc': 'ObsArc', 'nosingle': 'NoSingles', 'magic': 'MagicDiscovery', 'highvel': 'HighVelocity', 'hvnights': 'HighVelocityNights', 'inv': 'LightcurveInversion', 'color': 'ColorAsteroid', 'act': 'Activity'}.get(k, '') }"
    if k == "nobs":
        return M.NObsMetric(snr_limit=snr, metric_name=nm), {}
    if k == "nights":
        return M.NNightsMetric(snr_limit=snr, metric_name=nm), {}
    if k == "arc":
        return M.ObsArcMetric(snr_limit=snr, metric_name=nm), {}
    if k == "nosingle":
        return M.NObsNoSinglesMetric(snr_limit=snr, metric_name=nm), {}
    if k in ("disc", "disc2"):
        m = M.DiscoveryMetric(n_obs_per_night=2 if k == "disc" else 1, t_min=0, t_max=90 / 60 / 24, n_nights_per_window=3 if k == "disc" else 1,
                              t_window=15, snr_limit=snr, metric_name="Discovery_" + k)
        return m, {"Time": M.DiscoveryTimeMetric(m, metric_name="DiscoveryTime"), "N_Chances": M.DiscoveryNChancesMetric(m, metric_name="DiscoveryNChances")}
    if k == "magic":
        return M.MagicDiscoveryMetric(n_obs=3, t_window=20, snr_limit=snr, metric_name=nm), {}
    if k == "highvel":
        return M.HighVelocityMetric(psf_factor=1.5, snr_limit=snr, metric_name=nm), {}
    if k == "hvnights":
        return M.HighVelocityNightsMetric(psf_factor=1.2, n_obs_per_night=1, snr_limit=snr, metric_name=nm), {}
    if k == "inv":
        return M.LightcurveInversionAsteroidMetric(weight_det=3, snr_max=50, snr_limit=snr, metric_name=nm), {}
    if k == "color":
        return M.ColorAsteroidMetric(weight_det=2, snr_max=10, snr_limit=snr, metric_name=nm), {}
    if k == "lat":
        return lat_metric()
    return M.ActivityOverTimeMetric(200, snr_limit=5, metric_name=nm), {}


def make_bundle(spec, i, slicer, summary=None):
    from rubin_sim.maf.metric_bundles import MoMetricBundle
    from rubin_sim.maf.stackers import AppMagStacker, EclStacker, MoMagStacker, SNRStacker

    m, children = make_metric(spec)
    if spec["stack"] == "apart":  # the same columns from two stackers
        st = [MoMagStacker(sigma=1e-5), AppMagStacker(loss_col=spec["loss"]), SNRStacker(sigma=1e-5)]
    else:
        st = [MoMagStacker(loss_col=spec["loss"], sigma=1e-5)]
    if spec["stack"] == "ecl" or spec["kind"] in ("inv", "lat"):
        st.append(EclStacker(in_deg=bool(i % 2)))
    return MoMetricBundle(m, slicer, constraint=spec["constraint"], stacker_list=st, run_name="sim", info_label=f"b{i}",
                          child_metrics=children, summary_metrics=summary, display_dict={"group": "G", "subgroup": f"S{i}"})


def has_summary(spec):
    return spec["kind"] in ("nobs", "nights", "arc", "nosingle", "disc", "disc2", "lat")


def gen_spec(r):
    k = r.choice(KINDS)
    # the random roll-over of visibility is avoided by sigma = 1e-5
    return {"kind": k, "snr": None if k in ("act", "lat") else r.choice([None, None, 5, 8]), "loss": r.choice(["dmag_trail", "dmag_detect", "dmag_detect"]),
            "constraint": r.choice(CONSTR), "stack": r.choice(["mag", "mag", "mag", "ecl"])}


def values_of(b):
    return npz.show(np.ma.masked_array(b.metric_values))


def results(bundles):
    """file root -> values, of the bundles and their children."""
    res = {}
    for b in bundles:
        for x in [b] + list(b.child_bundles.values()):
            res[x.file_root] = {"values": values_of(x), "metric": x.metric.name, "info": x.info_label, "constraint": x.constraint,
                                "object": x.metric_values.dtype == object, "summary": {k: repr(float(v)) for k, v in (x.summary_values or {}).items() if v is not None}}
    return res


def alone(scn, d):
    """Each bundle on its own on the whole population."""
    from rubin_sim.maf.metric_bundles import MoMetricBundleGroup

    warnings.simplefilter("ignore")
    res, bad, roots = {}, [], []
    for i, spec in enumerate(scn["specs"]):
        b = make_bundle(spec, i, slicer_of(scn, d, None), summaries(scn) if has_summary(spec) else None)
        MoMetricBundleGroup({"x": b}, out_dir=os.path.join(d, f"alone{i}"), results_db=None, verbose=False).run_all()
        got = results([b])
        roots.append(sorted(got))
        res.update(got)
        ind = independent(scn, spec)
        if ind is not None:
            mv = b.metric_values
            mask = np.ma.getmaskarray(mv)
            for o in range(len(ind)):
                for h in range(len(ind[o])):
                    x = ind[o][h]
                    if (x is None) != bool(mask[o][h]) or (x is not None and abs(x - mv.data[o][h]) > 1e-6):
                        bad.append(f"{spec} object {o} H {h}: {mv[o][h]}, expected {x}")
        bad += sanity(scn, spec, b)
    return {"res": res, "bad": bad[:3], "roots": roots}


def hvals(scn, orb):
    return scn["H"] if scn["H"] is not None else [orb[7]]


def visible(scn, spec, orb, obs, h):
    """The rows of one object seen at one H, from the definitions."""
    out = []
    for x in obs:
        if x["obj_id"] != orb[0]:
            continue
        if spec["constraint"] == "night < 20" and not x["night"] < 20:
            continue
        if spec["constraint"] == "night > 1000":
            continue
        if spec["constraint"] == 'band == "r"' and x["band"] != "r":
            continue
        app = x["magV"] + x["dmag_color"] + x[spec["loss"]] + h - float(f"{orb[7]:.2f}")
        xv = 10 ** (0.5 * (app - x["fiveSigmaDepth"]))
        snr = 1 / np.sqrt((0.04 - 0.038) * xv + 0.038 * xv * xv)
        out.append((x, snr >= spec["snr"] if spec["snr"] is not None else app < x["fiveSigmaDepth"]))
    return out


def independent(scn, spec):
    k = spec["kind"]
    if k not in ("nobs", "nights", "arc", "nosingle"):
        return None
    orbs, obs = population(scn)
    out = []
    for o in orbs:
        row = []
        for h in hvals(scn, o):
            rows = visible(scn, spec, o, obs, h)
            v = [x for x, seen in rows if seen]
            if not rows:
                row.append(None)
            elif not v:
                row.append(0)
            elif k == "nobs":
                row.append(len(v))
            elif k == "nights":
                row.append(len({x["night"] for x in v}))
            elif k == "arc":
                row.append(max(x["observationStartMJD"] for x in v) - min(x["observationStartMJD"] for x in v) if v else 0)
            else:
                c = {}
                for x in v:
                    c[x["night"]] = c.get(x["night"], 0) + 1
                row.append(sum(n for n in c.values() if n > 1))
        out.append([x or None for x in row])  # 0 is the metrics' "bad" value: masked
    return out


def sanity(scn, spec, b):
    """Summaries and children. disc2: seen once is enough; the time is that of the first visible visit, the chances are the nights."""
    orbs, obs = population(scn)
    bad = []
    if has_summary(spec):  # of the children, if there are any
        for x in list(b.child_bundles.values()) or [b]:
            want = float(np.sum(np.ma.filled(x.metric_values, -1.0)) + np.sum(x.slicer.slice_points["H"]))
            got = (x.summary_values or {}).get("Total")
            if got is None or abs(got - want) > 1e-6 * abs(want) or scn["H"] is not None and len(x.summary_values) != 2:
                bad.append(f"{spec} {x.file_root}: summaries {x.summary_values}, total {want}")
    if spec["kind"] == "lat":
        v, c = b.metric_values, b.child_bundles["H"].metric_values
        for i, o in enumerate(orbs):
            for j, h in enumerate(hvals(scn, o)):
                m = np.ma.getmaskarray(v)[i][j], np.ma.getmaskarray(c)[i][j]
                if m[0] != m[1] or not m[0] and abs(c.data[i][j] - v.data[i][j] - 10 * h) > 1e-6:
                    bad.append(f"{spec} object {i} H {h}: {v[i][j]}, child {c[i][j]}")
    if spec["kind"] != "disc2":
        return bad
    t, c = b.child_bundles["Time"].metric_values, b.child_bundles["N_Chances"].metric_values
    for i, o in enumerate(orbs):
        for j, h in enumerate(hvals(scn, o)):
            v = [x for x, seen in visible(scn, spec, o, obs, h) if seen]
            tm, cm = np.ma.getmaskarray(t)[i][j], np.ma.getmaskarray(c)[i][j]
            if not v:
                if not (tm and cm):
                    bad.append(f"{spec} object {i} H {h}: never visible but discovered: {t[i][j]} {c[i][j]}")
            elif tm or cm or abs(t.data[i][j] - min(x["observationStartMJD"] for x in v)) > 1e-6 or c.data[i][j] != len({x["night"] for x in v}):
                bad.append(f"{spec} object {i} H {h}: discovered {t[i][j]} with {c[i][j]} chances, first seen {min(x['observationStartMJD'] for x in v)} on {len({x['night'] for x in v})} nights")
    return bad


def load(path):
    from rubin_sim.maf.metric_bundles import create_empty_mo_metric_bundle

    warnings.simplefilter("ignore")
    b = create_empty_mo_metric_bundle()
    b.read(path)
    return {"values": values_of(b), "metric": b.metric.name, "info": b.info_label, "constraint": b.constraint,
            "orbits": npz.show(b.slicer.slice_points["orbits"]["obj_id"].tolist()), "H": npz.show(list(b.slicer.slice_points["H"])),
            "shape": npz.show(np.atleast_1d(b.slicer.shape).tolist())}


def look(d):
    return {os.path.basename(p)[:-4]: load(p) for p in sorted(glob.glob(os.path.join(d, "*.npz")))}
