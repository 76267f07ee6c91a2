#!/bin/bash
# run with cwd = the repository; exit 0 = the property holds
here="$(cd "$(dirname "$0")" && pwd)"
work=$(mktemp -d /tmp/demo.XXXXXX)
export HOME="$work" TMPDIR="$work" PYTHONDONTWRITEBYTECODE=1 HF_HUB_OFFLINE=1 CUDA_VISIBLE_DEVICES= PYTHONPATH="$PWD/src:$here"
export DATA_OPTIMIZER_CACHE_FOLDER="$work/chunks" DATA_OPTIMIZER_DATA_CACHE_FOLDER="$work/data"
cd "$work" || exit 3
timeout -k 5 240 /opt/venv/bin/python "$here/demo.py"
rc=$?
rm -rf "$work"
exit $rc
