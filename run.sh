#!/bin/bash
# ./run.sh PROPERTY [--replay FILE]   builds the check from /repo's working tree and runs it.
# VERIF_TIER=quick|thorough chooses the bounds (default quick).
set -u
export VERIF_DIR=$(cd "$(dirname "$0")" && pwd)
export HOME=${HOME:-/root} PATH=/usr/local/bin:/usr/bin:/bin:$PATH
export GOTOOLCHAIN=local GOFLAGS=-mod=readonly GOPROXY=off GOWORK=off GOSUMDB=off GOVCS=off
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod
export GOCACHE=${VERIF_GOCACHE:-/root/.cache/go-build}
REPO=${VERIF_REPO:-/repo}
prop=$1; shift
tmp=$(mktemp -d /tmp/verif.XXXXXX)
trap 'rm -rf "$tmp"' EXIT
python3 "$VERIF_DIR/tools/overlay.py" "$prop" "$REPO" "$tmp" || exit 3
dir=$(cat "$tmp/pkg")
ok=
for try in 1 2; do
  if (cd "$REPO" && go build -buildvcs=false -overlay "$tmp/overlay.json" -o "$tmp/check" "$dir") >"$tmp/build.log" 2>&1; then ok=1; break; fi
done
if [ -z "$ok" ]; then echo "check $prop: build failed"; head -40 "$tmp/build.log"; exit 3; fi
export VERIF_PROP=$prop
cd "$VERIF_DIR"
"$tmp/check" "$@" 2>"$tmp/err"
rc=$?
case $rc in 0|1|3) cat "$tmp/err" >&2; exit $rc ;; esac
# It died: a stack overflow, a fatal error or an exit in the code under test.
head -c 3000 "$tmp/err" >&2
python3 - "$prop" "$rc" "$tmp/err" <<'EOF'
import json, os, sys
prop, rc, err = sys.argv[1:4]
d = os.path.join(os.environ["VERIF_DIR"], "evidence", "replays")
os.makedirs(d, exist_ok=True)
p = os.path.join(d, prop + "-process.json")
json.dump({"property": prop, "key": "process", "what": "the process died, status " + rc, "output": open(err, errors="replace").read()[:6000],
           "replay": "cd /verif && ./run.sh %s --replay %s" % (prop, p)}, open(p, "w"), indent=1)
print("VIOLATION property=%s replay=%s" % (prop, p))
print("  the process died, status " + rc)
EOF
exit 1
