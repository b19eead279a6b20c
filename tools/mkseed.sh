#!/bin/bash
# mkseed.sh ID PROPERTY PKG DIR : development helper. DIR holds edit.py (applied with cwd = a scratch copy of /repo),
# demo_test.go (package PKG test) and meta.json; writes /verif/seeded/ID after confirming build, stable tests and demo.
ID=$1; PKG=$2; SRC=$3
W=/tmp/seedwork/$ID; rm -rf "$W"; mkdir -p "$W"
cp -a /repo "$W/repo"; cd "$W/repo" || exit 1
PYTHONPATH=/tmp python3 "$SRC/edit.py" || { echo "$ID EDIT FAILED"; exit 1; }
OUT=/verif/seeded/$ID; rm -rf "$OUT"; mkdir -p "$OUT"
git diff > "$OUT/patch.diff"
cp "$SRC/meta.json" "$OUT/"; cp "$SRC/demo_test.go" "$OUT/"
cat > "$OUT/demo.sh" <<D
#!/bin/bash
# exit 0 when the behaviour is intact
D=\$(cd "\$(dirname "\$0")" && pwd)
export PATH=/opt/veriftools/go1.27.3/bin:\$PATH GOTOOLCHAIN=local GOPROXY=off GO111MODULE=on GOWORK=off CGO_ENABLED=1 HOME=/root GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=/root/.cache/go-build GOFLAGS="-mod=readonly -modfile=/opt/vp/owcdrivers.mod"
REPO=\$(pwd)
T=\$(mktemp -d); trap 'rm -rf "\$T"' EXIT
echo "{\"Replace\": {\"\$REPO/$PKG/zz_demo_test.go\": \"\$D/demo_test.go\"}}" > "\$T/o.json"
go test -vet=off -overlay "\$T/o.json" -count=1 -run TestZZDemo "./$PKG"
D
git -C "$W/repo" stash -q
(cd "$W/repo" && bash "$OUT/demo.sh" >"$W/demo0.log" 2>&1); R0=$?
git -C "$W/repo" stash pop -q
(cd "$W/repo" && bash "$OUT/demo.sh" >"$W/demo1.log" 2>&1); R1=$?
echo "$ID demo unchanged=$R0 patched=$R1 files: $(git diff --name-only | tr '\n' ' ')"
[ $R0 = 0 ] || tail -20 "$W/demo0.log"
rm -rf "$W"
