#!/bin/bash
# s02build.sh OUTDIR
HERE=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
OUT=$1
REPO=${VERIF_REPO:-/repo}
GR=/opt/veriftools/go1.27.3
bash "$HERE/build.sh" instr "$OUT/instr" || exit 1
"$OUT/instr" "$REPO" "$OUT/points" || exit 1
python3 - "$GR/src/sync/pool.go" "$OUT" <<'PY' || exit 1
import json, sys
src, out = sys.argv[1:]
s = open(src).read()
a = "func (p *Pool) Put(x any) {\n"
assert a in s
s = s.replace(a, a + "\tif race.Enabled {\n\t\treturn // nothing is handed on\n\t}\n", 1)
open(out + "/pool.go", "w").write(s)
json.dump({src: out + "/pool.go"}, open(out + "/pool.json", "w"))
PY
bash "$HERE/build.sh" seq "$OUT/seq" & p1=$!
OVERLAY_EXTRA="$OUT/pool.json" bash "$HERE/build.sh" seq "$OUT/seq-race" -race & p2=$!
OVERLAY_EXTRA="$OUT/points/overlay.json" bash "$HERE/build.sh" seq "$OUT/seq-sched" & p3=$!
wait $p1 && wait $p2 && wait $p3
