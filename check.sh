#!/bin/bash
# check.sh <property>: rebuild the harness against /repo's working tree and decide the property.
cd "$(dirname "$0")" || exit 2
. ./env.sh
log=$(mktemp)
if ! (cd mc && cargo build --release --offline >"$log" 2>&1); then
  tail -40 "$log"; rm -f "$log"
  echo "harness does not build against /repo"; exit 2
fi
rm -f "$log"
exec target/release/mc "$@"
