#!/bin/bash
# run.sh quick|thorough ID     build the harness crate of the property and run its check
# run.sh replay ID FILE        re-run one recorded case
. /verif/env.sh
mode=$1 id=$2
case $id in
  P0[1-5]|P08|P09|P1[0-4]|P35|P39|P42) crate=core ;;
  P06|P07|P15|P16|P31|P34) crate=langs ;;
  *) crate=tools ;;
esac
cd /verif/mc/$crate || exit 2
log=$(mktemp)
if ! cargo build --offline --locked -q >"$log" 2>&1; then
  cat "$log"; rm -f "$log"; echo "BUILD FAILED for $id"; exit 2
fi
rm -f "$log"
if [ "$mode" = replay ]; then exec /verif/target/debug/mc-$crate replay "$3"; fi
exec /verif/target/debug/mc-$crate check "$id" "$mode"
