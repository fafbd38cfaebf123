"""C16: the latest archived pre-night simulation reported is really the latest."""

from .. import proto

PROPERTY = "C16"
LEVEL = "exploration"
RUNS = {"quick": 400, "thorough": 16000}
WALL = {"quick": 240, "thorough": 1800}
REAL = ["rubin_sim.sim_archive.prototype (find_latest_prenight_sim_for_nights, fetch_sim_for_nights, transfer_archive_dir, compile_sim_metadata)",
        "rubin_sim.maf.get_sim_data, DayObsISOStacker", "lsst.resources on a local directory", "HDF5, pandas, sqlite3"]
STUB = ["clocks, scheduling of processes and order of directory listings (simulated)", "faults: kill at any I/O call, torn and short writes, I/O errors, full disk"]
ASSUME = ["the archive is in a file system", "HDF5 reports failures to write its own temporary file", "as documented, a compilation stands in for the dates before the last one it includes: simulations of such a date that were added later may be missing from readings that use it"]
RULE = "1-2 processes archive and compile over a few simulated days while asking for the latest simulation and its visits; reference: the listed entries that satisfy the request, ordered by date and number."


def warm():
    proto.warm()


def generate(seed, tier):
    return proto.generate(seed, "read")


def run(scn, ctx):
    return proto.run(scn, ctx, ("read",))
