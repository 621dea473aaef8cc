#!/bin/bash
# usage: run.sh <property id> [--replay file]   (tier and seed from VERIF_TIER, VERIF_SEED)
# Runs one check against the working tree of /repo, imported afresh (no stale bytecode, scratch HOME and cwd).
here="$(cd "$(dirname "$0")" && pwd)"
scratch="$(mktemp -d /tmp/lipsverif.XXXXXX)" || exit 2
trap 'rm -rf "$scratch" 2>/dev/null || { sleep 1; rm -rf "$scratch"; }' EXIT
mkdir -p "$scratch/home" "$scratch/cwd" "$scratch/pyc" "$scratch/tmp"
cd "$scratch/cwd" || exit 2
env HOME="$scratch/home" TMPDIR="$scratch/tmp" VERIF_SCRATCH="$scratch" PYTHONPYCACHEPREFIX="$scratch/pyc" PYTHONHASHSEED=0 \
    OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1 PYTHONPATH="${LIPS_REPO:-/repo}" \
    /opt/venv/bin/python -W ignore "$here/harness/run.py" "$@" 2>"$scratch/stderr"
rc=$?
if [ "$rc" != 0 ] && [ "$rc" != 1 ]; then tail -n 60 "$scratch/stderr" >&2; fi
exit $rc
