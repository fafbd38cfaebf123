PROPERTY = "C22"
NEEDS = "an entry with a file which is longer than one block"
BREAKS = "the recorded hash of an imported file is that of its beginning"
F = "rubin_sim/sim_archive/vseqmetadata.py"
EDITS = [(F, "hashlib.sha256(file_rp.read()).hexdigest()", "hashlib.sha256(file_rp.read(size=8192)).hexdigest()")]
import importlib.util as _u
_s = _u.spec_from_file_location("m", "/verif/tools/seeds/c22-mark-first.py"); _m = _u.module_from_spec(_s); _s.loader.exec_module(_m)
DEMO = open("/verif/tools/seeds/pgdemo.txt").read() + _m.ENTRY + '''
u = vs.import_sim_from_prototype_sim_archive("file://" + store + "/", "2030-01-01", 1, "file://" + arch + "/")
got = {t: bytes(h) for t, h in vs.query("SELECT file_type, file_sha256 FROM test_demo.files WHERE visitseq_uuid='" + str(u) + "'")}
ok = all(got[t] == hashlib.sha256(open(os.path.join(e, f), "rb").read()).digest() for t, f in (("observations", "opsim.db"), ("big", "big.txt")))
print(ok, sorted(got))
sys.exit(0 if ok else 1)
'''
