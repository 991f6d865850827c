#!/bin/sh
# Nothing to compile: petrofit and the monitors are pure Python. Checks that everything imports and every check module loads.
here=$(cd "$(dirname "$0")" && pwd)
export MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1 VERIF_REPO="${VERIF_REPO:-/repo}"
export PYTHONPATH="$VERIF_REPO:$here"
d=$(mktemp -d) || exit 1
HOME=$d MPLCONFIGDIR=$d /opt/venv/bin/python -W ignore - <<'P'
import importlib, json, os, petrofit, mon.core
here = os.environ["PYTHONPATH"].split(":")[1]
for c in json.load(open(os.path.join(here, "MANIFEST.json")))["checks"]:
    importlib.import_module("mon.props." + c["property"].lower())
print("ok", petrofit.__file__)
P
rc=$?
rm -rf "$d"
exit $rc
