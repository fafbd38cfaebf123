#!/bin/bash
# run.sh <PROPERTY> [--tier quick|thorough] [--seed N] [--replay FILE] ...
cd "$(dirname "$0")" || exit 2
HERE=$PWD
mkdir -p build evidence replays
# the I/O seam is compiled on first use
LIB=$HERE/build/libsimio.so
if [ ! -f "$LIB" ] || [ shim/simio.c -nt "$LIB" ]; then
    gcc -O2 -fPIC -shared -w -o "$LIB.$$" shim/simio.c -ldl || exit 2
    mv -f "$LIB.$$" "$LIB"
fi
PGLIB=$HERE/build/libpgclock.so
if [ ! -f "$PGLIB" ] || [ shim/pgclock.c -nt "$PGLIB" ]; then
    gcc -O2 -fPIC -shared -w -o "$PGLIB.$$" shim/pgclock.c -ldl || exit 2
    mv -f "$PGLIB.$$" "$PGLIB"
fi
export PYTHONHASHSEED=${DST_HASHSEED:-0} PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg LC_ALL=C.UTF-8 USER=root LOGNAME=root
export RUBIN_SIM_DATA_DIR=/opt/vp/rubin_sim_data ASTROPY_CONFIG_DIR=/opt/vp/astropy_config TZ=UTC
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1 NUMEXPR_MAX_THREADS=1
export PATH=/opt/vp/pgbin:$PATH
unset PGTZ
WORK=$(mktemp -d /tmp/dst.XXXXXX)
chmod 711 "$WORK"
mkdir -m 711 "$WORK/tmp"
export TMPDIR=$WORK/tmp HOME=$WORK DST_SHIM=$LIB DST_WORK=$WORK
export PYTHONPATH=${DST_REPO:-/repo}:$HERE
cleanup() {
    for f in "$WORK"/pg*/data/postmaster.pid; do
        [ -f "$f" ] && kill -QUIT "$(head -1 "$f")" 2>/dev/null && sleep 0.3
    done
    rm -rf "$WORK"
}
trap cleanup EXIT
LD_PRELOAD=$LIB /opt/venv/bin/python -u -m dst.main "$@"
rc=$?
exit $rc
