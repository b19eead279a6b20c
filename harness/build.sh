#!/bin/bash
# build.sh NAME OUT [go build flags]: builds harness/cmd/NAME against /repo's current working tree.
# The harness sources are laid over /repo as virtual packages (go build -overlay); nothing is written in /repo.
set -e
HERE=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
NAME=$1; OUT=$2; shift 2
export PATH=/opt/veriftools/go1.27.3/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GO111MODULE=on GOWORK=off CGO_ENABLED=${CGO_ENABLED:-1}
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=${GOCACHE:-/root/.cache/go-build} GOFLAGS=
REPO=${VERIF_REPO:-/repo}
SCR=$(mktemp -d)
trap 'rm -rf "$SCR"' EXIT
cp "$HERE/mod/owc.mod" "$SCR/owc.mod"; cp "$HERE/mod/owc.sum" "$SCR/owc.sum"
python3 - "$HERE" "$REPO" "$SCR/overlay.json" ${OVERLAY_EXTRA:-} <<'PY'
import json, os, sys
here, repo, out = sys.argv[1:4]
rep = {}
for root, _, files in os.walk(here):
    for f in files:
        if f.endswith(".go"):
            p = os.path.join(root, f)
            rep[os.path.join(repo, "zzverif", os.path.relpath(p, here))] = p
for extra in sys.argv[4:]:
    rep.update(json.load(open(extra)))
json.dump({"Replace": rep}, open(out, "w"))
PY
cd "$REPO"
go build -mod=mod -modfile="$SCR/owc.mod" -overlay "$SCR/overlay.json" "$@" -o "$OUT" ./zzverif/cmd/$NAME
