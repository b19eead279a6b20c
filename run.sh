#!/bin/bash
# run.sh PROPERTY quick|thorough : rebuilds the harness that decides PROPERTY from /repo's working tree and runs it.
HERE=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
PROP=$1; TIER=${2:-quick}
case $PROP in
  A01|A02|A03|A04) BIN=addr ;;
  K01|K02|K03) BIN=keys ;;
  B0*) BIN=btc ;;
  U0*) BIN=utxo ;;
  T0*) BIN=acct ;;
  R0*) BIN=robust ;;
  S01) BIN=seq ;;
  S02) exec bash "$HERE/harness/s02.sh" "$TIER" ;;
  *) echo "unknown property $PROP" >&2; exit 2 ;;
esac
OUT=$(mktemp -d)
trap 'rm -rf "$OUT"' EXIT
bash "$HERE/harness/build.sh" $BIN "$OUT/$BIN" || { echo "the harness does not build against /repo" >&2; exit 2; }
ARGS=(-prop "$PROP" -verif "$HERE")
[ "$TIER" = thorough ] && ARGS+=(-deep)
"$OUT/$BIN" "${ARGS[@]}"
