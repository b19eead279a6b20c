#!/bin/bash
# Warms the Go build cache for the harness binaries (everything is rebuilt from /repo by each check anyway).
HERE=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
OUT=$(mktemp -d)
trap 'rm -rf "$OUT"' EXIT
for d in "$HERE"/harness/cmd/*/; do
  n=$(basename "$d")
  bash "$HERE/harness/build.sh" "$n" "$OUT/$n" || exit 1
done
mkdir -p "$OUT/s02" && bash "$HERE/harness/s02build.sh" "$OUT/s02" || exit 1
mkdir -p "$HERE/evidence"
echo setup ok
