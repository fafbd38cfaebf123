"""C19: cached SEDs are the SEDs of the library."""

import gzip
import os
import random
import shutil

from .. import core

PROPERTY = "C19"
LEVEL = "exploration"
RUNS = {"quick": 2500, "thorough": 60000}
WALL = {"quick": 240, "thorough": 1800}
REAL = ["rubin_sim.phot_utils.sed (cache_lsst_seds, Sed.read_sed_flambda, read_close__kurucz and the pickled cache)", "numpy text and pickle formats", "the file system"]
STUB = ["the SED library (two generated ones of 13 small spectra)", "clock", "process scheduling", "faults: kill at any I/O call, torn and short writes, I/O errors, full disk"]
ASSUME = ["a crash ends the process, not the machine", "spectra that are in the library are not changed (files are added, the cache removed, the library exchanged for another one)",
          "the whole spectrum may be returned instead of a wavelength range where the cache cannot be used because of a disk error or files added to the library"]
RULE = "1-3 processes make and use the cache of 1-2 libraries, in one or several cache directories, with kills, disk errors and reruns, read spectra by either name, change what they got, and look up the closest stellar model."

KURUCZ = [(-10, 20, 5040), (-10, 25, 5040), (-10, 20, 6000), (5, 40, 6000), (5, 45, 6250), (-25, 40, 7240), (0, 10, 3830)]
OTHER = ["galaxySED/Inst.10E10.02Z.spec", "galaxySED/Burst.19E08.04Z.spec", "agnSED/agn.spec", "flatSED/sed_flat.txt", "ssmSED/S.dat", "starSED/mlt/m2.0Full.dat"]
EXTRA = ["starSED/wDs/bergeron_4000_75.dat", "galaxySED/Const.79E07.002Z.spec", "agnSED/new.spec"]


def kname(z, g, t):
    return f"k{'m' if z < 0 else 'p'}{abs(z):02d}_{t}.fits_g{g}_{t}"


FILES = ["starSED/kurucz/" + kname(*k) for k in KURUCZ] + OTHER


def spectrum(lib, name):
    """The spectrum of a file, from its name."""
    r = random.Random(f"{lib} {name}")
    n = r.randrange(5, 40)
    w = sorted(r.sample(range(200, 1200, 10), n))
    return [(float(x), round(r.uniform(1e-3, 9.0), 6)) for x in w]


def write_file(root, lib, name):
    p = os.path.join(root, "sims_sed_library", name + ".gz")
    os.makedirs(os.path.dirname(p), exist_ok=True)
    with gzip.GzipFile(p, "wb", mtime=0) as f:
        f.write("".join(f"{a!r} {b!r}\n" for a, b in spectrum(lib, name)).encode())


def worker_init(ctx):
    for lib in range(2):
        root = os.path.join(ctx.base, f"lib{lib}")
        if not os.path.exists(root):
            for n in FILES:
                write_file(root, lib, n)
    root = os.path.join(ctx.base, "extra")
    if not os.path.exists(root):
        for lib in range(2):
            for n in EXTRA:
                write_file(os.path.join(root, str(lib)), lib, n)


def warm():
    import numpy  # noqa: F401

    import rubin_sim.phot_utils.sed as S

    S.Sed()


def generate(seed, tier):
    r = random.Random(seed)
    nc = r.choice([1, 2, 2, 3])
    nlib = r.choice([1, 1, 2])
    dirs = r.choice([[None], [None], ["c0"], ["c0", None], ["c0", "c1"]])
    if nlib == 2 and r.random() < 0.7:
        dirs = ["c0"]
    crash = r.choice([0, 0.3, 0.6])
    add = r.random() < 0.2
    clients = []
    for c in range(nc):
        lib = r.randrange(nlib)
        ops = []
        for _ in range(r.randrange(1, 7)):
            x = r.random()
            if x < 0.4:
                op = {"k": "cache", "dir": r.choice(dirs), "w": r.choice([None, None, [300.0, 800.0], [None, 700.0], [500.0, None]])}
                if r.random() < crash:
                    kind = r.choice(["io_crash", "io_crash", "io_torn", "io_torn", "io_eio", "io_enospc", "io_short"])
                    op["fault"] = {"kind": kind, "at": r.choice([r.randrange(1, 5), r.randrange(1, 10), r.randrange(1, 60)])}
            elif x < 0.75:
                op = {"k": "read", "f": r.choice(FILES), "gz": r.random() < 0.5, "change": r.random() < 0.5, "keep": r.random() < 0.7}
            elif x < 0.88:
                op = {"k": "kurucz", "a": [r.uniform(3500, 8000), r.choice([-2.5, -1.0, -0.9, 0.0, 0.4]), r.choice([1.0, 20, 22.4, 23, 40, 44])]}
            elif x < 0.94:
                op = {"k": "rm", "dir": r.choice(dirs)}
            else:
                op = {"k": "add", "f": r.choice(EXTRA)} if add else {"k": "new"}
            ops.append(op)
        if nlib == 2 and r.random() < 0.6:
            ops.append({"k": "new"})
        ops.append({"k": "cache", "dir": r.choice(dirs), "w": r.choice([None, [300.0, 800.0]])})
        ops.append({"k": "read", "f": r.choice(FILES), "gz": True, "change": True, "keep": True})
        clients.append({"name": f"p{c}", "ops": ops, "lib": lib})
    return {"clients": clients, "sched_seed": seed, "stay": r.choice([0.5, 0.8, 0.95]), "ioyield": nc > 1}


def client(base, lib):
    def fn(state, op):
        import numpy as np

        import rubin_sim.phot_utils.sed as S

        root = os.path.join(base, f"lib{lib}")
        os.environ["RUBIN_SIM_DATA_DIR"] = root
        cdir = os.path.join(base, op["dir"]) if op.get("dir") else None
        k = op["k"]
        if k == "new":  # a new session
            S._global_lsst_sed_cache = None
            S._global_misc_sed_cache = None
            if hasattr(S.read_close__kurucz, "param_combos"):
                del S.read_close__kurucz.param_combos
            return None
        if k == "rm":
            p = os.path.join(cdir or os.path.join(root, "sims_sed_library", "lsst_sed_cache_dir"), "lsst_sed_cache_3.p")
            try:
                os.remove(p)
            except FileNotFoundError:
                pass
            return None
        if k == "add":
            dst = os.path.join(root, "sims_sed_library", op["f"] + ".gz")
            os.makedirs(os.path.dirname(dst), exist_ok=True)
            shutil.copyfile(os.path.join(base, "extra", str(lib), "sims_sed_library", op["f"] + ".gz"), dst + f".{os.getpid()}.tmp")
            os.replace(dst + f".{os.getpid()}.tmp", dst)
            return None
        if k == "cache":
            w = op["w"] or [None, None]
            S.cache_lsst_seds(wavelen_min=w[0], wavelen_max=w[1], cache_dir=cdir)
            return None
        if k == "read":
            s = S.Sed()
            s.read_sed_flambda(os.path.join(root, "sims_sed_library", op["f"] + (".gz" if op["gz"] else "")), cache_sed=op["keep"])
            out = [[float(a), float(b)] for a, b in zip(s.wavelen, s.flambda)]
            if op["change"]:
                s.flambda *= 2.0
                s.wavelen += 1.0
                s.redshift_sed(1.0) if np.size(s.wavelen) else None
            return out
        if k == "kurucz":
            s, par = S.read_close__kurucz(*op["a"])
            return {"s": [[float(a), float(b)] for a, b in zip(s.wavelen, s.flambda)], "p": {x: float(v) for x, v in par.items()}}

    return fn


def closest(a):
    """The model closest in effective temperature, then metallicity, then gravity."""
    best = KURUCZ
    for i, f in ((0, lambda k: float(k[2])), (1, lambda k: k[0] / 10.0), (2, lambda k: float(k[1]))):
        d = [abs(f(k) - a[i]) for k in best]
        best = [k for k, x in zip(best, d) if x <= min(d) + 1e-9]
    return best


def cut(sp, w):
    w = w or [None, None]
    return [list(x) for x in sp if (w[0] is None or x[0] >= w[0]) and (w[1] is None or x[0] <= w[1])]


def run(scn, ctx):
    run = core.Run(scn, ctx.base)
    try:
        base = run.dir
        for d in ("lib0", "lib1", "extra"):
            shutil.copytree(os.path.join(ctx.base, d), os.path.join(base, d))
        for c in scn["clients"]:
            run.add(c["name"], client(base, c["lib"]), c["ops"])
        run.go()
        libs = {c["name"]: c["lib"] for c in scn["clients"]}
        # disk errors or files added to a library: its cache need not be used
        loose = any(h.get("fired") and h["fired"] != "io_crash" and h["fired"] != "io_torn" for h in run.history) or any(
            h["op"]["k"] == "add" for h in run.history)
        rng = {}
        for h in run.history:
            op, c = h["op"], h["c"]
            what = f"{c} {op}"
            k = op["k"]
            if h["s"] == "crash":
                rng[c] = None  # a new process
                continue
            if h["s"] == "exc":
                if not h.get("fired") and not (k == "kurucz" and loose):  # the models are listed from the cache
                    run.violation("op-failed", f"{what}: {h['e']}: {h['m']} {h['w']}")
                if k in ("cache", "kurucz"):
                    rng[c] = "unknown"
                continue
            if k == "new":
                rng[c] = None
            elif k == "cache":
                rng[c] = op["w"] or "all"
            elif k in ("read", "kurucz"):
                lib = libs[c]
                if k == "read":
                    names, got = [op["f"]], h["v"]
                else:
                    near = closest(op["a"])
                    names, got = ["starSED/kurucz/" + kname(*x) for x in near], h["v"]["s"]
                    p = h["v"]["p"]
                    if not any(abs(p["teff"] - x[2]) < 1e-6 and abs(p["fe_h"] - x[0] / 10.0) < 1e-9 and abs(p["logg"] - x[1]) < 1e-9 for x in near):
                        run.violation("wrong-model", f"{what}: {p}, closest are {near}")
                    if rng.get(c) is None:
                        rng[c] = "all"
                w = rng.get(c)
                ok = [cut(spectrum(lib, n), None if w in (None, "all", "unknown") else w) for n in names]
                if loose or w == "unknown":
                    ok += [cut(spectrum(lib, n), None) for n in names]
                    ok += [cut(spectrum(lib, n), x) for n in names for x in ([300.0, 800.0], [None, 700.0], [500.0, None]) if w == "unknown"]
                if got not in ok:
                    run.violation("wrong-spectrum", f"{what}: {got}, in the library {ok[0]} (range {w})")
        return core.result_of(run)
    finally:
        run.cleanup()
