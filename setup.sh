#!/bin/bash
# Parses the specification and compiles the driver once, so that a broken
# checkout is noticed before any check runs.
cd "$(dirname "$0")" || exit 1
d=$(mktemp -d)
cp spec/*.tla "$d" || exit 1
(cd "$d" && java -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tla2sany.SANY Trace.tla) | grep -E 'Parsing|Semantic|rror' | tail -3
python3 - <<'P'
import sys, tempfile, shutil
sys.argv = ["check.py"]
import check
d = tempfile.mkdtemp()
print(check.build(d))
shutil.rmtree(d)
P
rc=$?
rm -rf "$d"
exit $rc
