#!/bin/bash
# trybug.sh ID PROP [tier]: development helper, runs PROP's check on a scratch copy of /repo with seeded/ID applied.
ID=$1; PROP=$2; TIER=${3:-quick}
W=/tmp/trybug/$ID-$PROP; rm -rf "$W"; mkdir -p "$W"
git -C /repo archive HEAD | tar x -C "$W"
cd "$W" && git init -q . && git apply /verif/seeded/$ID/patch.diff || { echo "$ID: patch does not apply"; exit 2; }
VERIF_REPO=$W bash /verif/run.sh $PROP $TIER > /tmp/trybug/$ID-$PROP.log 2>&1; R=$?
echo "$ID $PROP exit=$R $(grep -c '^VIOLATION' /tmp/trybug/$ID-$PROP.log) violations"
rm -rf "$W"
