#!/bin/bash
# Checks build what they need themselves; this only makes sure that the tools are there and
# that every specification parses, and warms the cache of built extensions.
cd "$(dirname "$0")" || exit 1
python3 - <<'P' || exit 1
import sys, tempfile, shutil
sys.path.insert(0, 'lib')
from engine import *
d = tempfile.mkdtemp(prefix='funpy-verif-setup-')
try:
    build_repo(d)
finally:
    shutil.rmtree(d, ignore_errors=True)
P
for f in spec/*.tla; do
    out=$(cd spec && java -Djava.io.tmpdir=/tmp -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tla2sany.SANY "$(basename "$f")" 2>&1) \
        || { echo "$out"; echo "SANY failed on $f"; exit 1; }
done
echo "setup ok"
