#!/usr/bin/env python3
"""mkseed.py: write seeded/<id>/ from a spec file tools/seeds/<id>.py

A spec defines PROPERTY, NEEDS, BREAKS, EDITS = [(file, old, new), ...] and DEMO (python source, exit code decides)."""
import difflib, json, os, subprocess, sys

DEMO_SH = '''#!/bin/bash
# exit 0: the property holds, nonzero: it is broken
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg LC_ALL=C.UTF-8 USER=root LOGNAME=root TZ=UTC
export RUBIN_SIM_DATA_DIR=/opt/vp/rubin_sim_data ASTROPY_CONFIG_DIR=/opt/vp/astropy_config
export PATH=/opt/vp/pgbin:$PATH
WORK=$(mktemp -d /tmp/demo.XXXXXX) && chmod 711 "$WORK" && mkdir -m 711 "$WORK/tmp"
trap 'rm -rf "$WORK"' EXIT
export TMPDIR=$WORK/tmp DEMO_DIR=$WORK
/opt/venv/bin/python "$(dirname "$0")/demo.py"
'''
for i in sys.argv[1:]:
    ns = {}
    exec(open(f"/verif/tools/seeds/{i}.py").read(), ns)
    texts = {}
    for f, old, new in ns["EDITS"]:
        t = texts.get(f) or subprocess.check_output(["git", "-C", "/repo", "show", f"HEAD:{f}"], text=True)
        assert t.count(old) == 1, (i, f, old, t.count(old))
        texts[f] = t.replace(old, new)
    out = ""
    for f, t in texts.items():
        o = subprocess.check_output(["git", "-C", "/repo", "show", f"HEAD:{f}"], text=True)
        out += "".join(difflib.unified_diff(o.splitlines(True), t.splitlines(True), "a/" + f, "b/" + f))
    d = f"/verif/seeded/{i}"
    os.makedirs(d, exist_ok=True)
    open(d + "/patch.diff", "w").write(out)
    open(d + "/demo.sh", "w").write(DEMO_SH)
    os.chmod(d + "/demo.sh", 0o755)
    open(d + "/demo.py", "w").write(ns["DEMO"].lstrip("\n"))
    json.dump({"property": ns["PROPERTY"], "needs": ns["NEEDS"], "what_it_breaks": ns["BREAKS"]}, open(d + "/meta.json", "w"), indent=1)
