"""C15: prototype archive entries are complete, unique and never overwritten."""

from .. import proto

PROPERTY = "C15"
LEVEL = "exploration"
RUNS = {"quick": 400, "thorough": 16000}
WALL = {"quick": 240, "thorough": 1800}
REAL = ["rubin_sim.sim_archive.prototype (transfer_archive_dir, compile_sim_metadata, read_sim_metadata_from_hdf, read_archived_sim_metadata, check_opsim_archive_resource)",
        "rubin_sim.sim_archive.sim_archive.make_sim_data_dir (makes the source directories)", "lsst.resources on a local directory", "HDF5, pandas"]
STUB = ["clocks, scheduling of processes and order of directory listings (simulated)", "faults: kill at any I/O call, torn and short writes, I/O errors, full disk"]
ASSUME = ["the archive is in a file system", "HDF5 reports failures to write its own temporary file", "as documented, a compilation stands in for the dates before the last one it includes: simulations of such a date that were added later may be missing from readings that use it"]
RULE = "1-3 processes archive, compile, list and check over a few simulated days; every entry with metadata is compared with its source after every operation and crash, every listing with the reference archive."


def warm():
    proto.warm()


def generate(seed, tier):
    return proto.generate(seed, "write")


def run(scn, ctx):
    return proto.run(scn, ctx, ("write",))
