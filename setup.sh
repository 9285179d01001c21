#!/bin/bash
# nothing is compiled: the checks run the Python sources of /repo under Jython
cd "$(dirname "$0")" || exit 1
python3-vt -c 'import hypothesis' || exit 1
/opt/jy/bin/jython2 -c 'import json, sys; print sys.version' || exit 1
python3-vt -B -c '
import sys; sys.path.insert(0, "harness")
import json, importlib
for c in json.load(open("MANIFEST.json"))["checks"]:
    importlib.import_module("props." + c["property"])
'
