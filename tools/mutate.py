#!/usr/bin/env python3
"""mutate.py FILE [PREFIX...]: apply each mutant of tools/mut/FILE.py in a scratch copy and run its check on it.

A mutant is (id, property, [(file, old, new), ...]). Reports which ones the quick check does not report."""
import os, shutil, subprocess, sys, tempfile, time

ns = {}
exec(open(f"/verif/tools/mut/{sys.argv[1]}.py").read(), ns)
pre = sys.argv[2:]
bad = []
for mid, prop, edits in ns["MUT"]:
    if pre and not any(mid.startswith(p) for p in pre):
        continue
    w = tempfile.mkdtemp(prefix="mut.", dir="/tmp")
    os.chmod(w, 0o711)
    r = w + "/repo"
    try:
        subprocess.check_call(["cp", "-a", "/repo", r])
        subprocess.check_call(["git", "-C", r, "checkout", "-q", "--", "."])
        for f, old, new in edits:
            p = os.path.join(r, f)
            t = open(p).read()
            if t.count(old) != 1:
                raise SystemExit(f"{mid}: {f}: {t.count(old)} matches of {old!r}")
            open(p, "w").write(t.replace(old, new))
        t0 = time.time()
        x = subprocess.run(["./run.sh", prop, "--no-evidence", "--no-min"] + os.environ.get("MUTARGS", "").split(), cwd="/verif", env={**os.environ, "DST_REPO": r},
                           capture_output=True, text=True, timeout=900)
        v = [l for l in x.stdout.splitlines() if l.startswith("VIOLATION")]
        ok = x.returncode == 1 and v
        last = [l for l in (x.stdout + x.stderr).splitlines() if l.strip() and not l.startswith(("VIOLATION", "Created"))]
        runs = [l for l in last if " runs, " in l]
        print(f"{'caught' if ok else 'MISSED'} {mid} ({prop}) rc={x.returncode} {time.time()-t0:.0f}s {runs[0].split(': ')[1].split(',')[0] if runs else ''} | {last[-1][:150] if last else ''}", flush=True)
        if not ok:
            bad.append(mid)
    finally:
        shutil.rmtree(w)
print("missed:", bad)
