PROPERTY = "C22"
NEEDS = "a failure (kill, lost connection, unreadable file) while the files of an imported simulation are registered"
BREAKS = "a sequence marked as imported has none of its files"
F = "rubin_sim/sim_archive/vseqmetadata.py"
EDITS = [(F, '''    metadata_yaml = yaml.dump(metadata)

''', '''    metadata["tags"] = metadata.get("tags", []) + ["from_prototype_sim_archive"]

    metadata_yaml = yaml.dump(metadata)

'''), (F, '''        if "files" in sim_archive_metadata:
            for file_type in sim_archive_metadata["files"]:
                file_rp = ResourcePath(sim_archive_metadata["files"][file_type]["url"])
                file_sha256 = bytes.fromhex(hashlib.sha256(file_rp.read()).hexdigest())
                self.register_file(sim_uuid, file_type, file_sha256, file_rp)

        if "tags" in sim_archive_metadata:
            valid_tags = [t for t in sim_archive_metadata["tags"] if isinstance(t, str)]
            self.tag(sim_uuid, *valid_tags)
''', '''        if "tags" in sim_archive_metadata:
            valid_tags = [t for t in sim_archive_metadata["tags"] if isinstance(t, str)]
            self.tag(sim_uuid, *valid_tags)

        if "files" in sim_archive_metadata:
            for file_type in sim_archive_metadata["files"]:
                file_rp = ResourcePath(sim_archive_metadata["files"][file_type]["url"])
                file_sha256 = bytes.fromhex(hashlib.sha256(file_rp.read()).hexdigest())
                self.register_file(sim_uuid, file_type, file_sha256, file_rp)
'''), (F, '''        self.tag(sim_uuid, "from_prototype_sim_archive")

''', '')]
ENTRY = '''
import sqlite3, yaml, hashlib
d = mkdtemp()
arch = os.path.join(d, "archive"); store = os.path.join(d, "store")
os.mkdir(store)
e = os.path.join(arch, "2030-01-01", "1"); os.makedirs(e)
con = sqlite3.connect(os.path.join(e, "opsim.db"))
visits.to_sql("observations", con, index=False); con.close()
open(os.path.join(e, "big.txt"), "w").write("line\\n" * 30000)
yaml.safe_dump({"label": "one", "files": {"observations": {"name": "opsim.db"}, "big": {"name": "big.txt"}}, "tags": ["ideal"], "telescope": "simonyi",
                "simulated_dates": {"first": "2030-01-01", "last": "2030-01-05"}}, open(os.path.join(e, "sim_metadata.yaml"), "w"))
'''
DEMO = open("/verif/tools/seeds/pgdemo.txt").read() + ENTRY + '''
real = vs.register_file
def fail(u, file_type, *a, **k):
    if file_type in ("observations", "big"):
        raise RuntimeError("lost connection")
    return real(u, file_type, *a, **k)
vs.register_file = fail
try:
    vs.import_sim_from_prototype_sim_archive("file://" + store + "/", "2030-01-01", 1, "file://" + arch + "/")
except RuntimeError as x:
    print(x)
vs.register_file = real
n = len(vs.query("SELECT visitseq_uuid FROM test_demo.tags WHERE tag='from_prototype_sim_archive'"))
print("marked as imported, without files:", n)
u = vs.import_sim_from_prototype_sim_archive("file://" + store + "/", "2030-01-01", 1, "file://" + arch + "/")
ok = vs.is_tagged(u, "from_prototype_sim_archive") and vs.is_tagged(u, "ideal")
sys.exit(0 if ok and n == 0 else 1)
'''
