#!/bin/bash
# s02.sh quick|thorough : builds the seq harness three times from /repo's working tree (as it is; with the race detector
# and a sync.Pool that orders nothing; with yield points and a cooperative scheduler) and runs S02.
HERE=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
TIER=$1; VERIF=${2:-$(dirname "$HERE")}; shift; shift
OUT=$(mktemp -d)
trap 'rm -rf "$OUT"' EXIT
die() { echo "the harness does not build against /repo" >&2; exit 2; }
bash "$HERE/s02build.sh" "$OUT" || die
export SEQ_RACE=$OUT/seq-race SEQ_SCHED=$OUT/seq-sched
ARGS=(-prop S02 -verif "$VERIF")
[ "$TIER" = thorough ] && ARGS+=(-deep)
"$OUT/seq" "${ARGS[@]}" "$@"
