#!/bin/bash
# replay.sh PROPERTY SEED CASE: build the companion from /repo's current tree and run that one case
set -e
cd "$(dirname "$0")"
exec python3 - "$@" <<'P'
import sys, os, tempfile, shutil
sys.argv, a = ['x'], sys.argv[1:]
sys.path.insert(0, os.getcwd())
import check
d = tempfile.mkdtemp()
try:
    c = check.Companion(a[0], 'quick', int(a[1]), d)
    if not c.compiled():
        print(c.detail); sys.exit(2)
    f = c.search(5, int(a[1]), a[2:3])
    print(f or 'no failure')
    sys.exit(1 if f else 0)
finally:
    shutil.rmtree(d)
P
