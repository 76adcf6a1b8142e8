#!/bin/bash
# run all quick checks with the built binary
cd /verif; . ./env.sh
(cd mc && cargo build --release --offline 2>&1 | grep -E "^error|Finished" )
for id in $(grep -oE '^\s+"[SBF][0-9]+" =>' mc/src/main.rs | grep -oE '[SBF][0-9]+'); do s=$(date +%s.%N); ./target/release/mc $id >/tmp/o.$id 2>&1; r=$?; e=$(date +%s.%N); echo "$id rc=$r $(echo "$e-$s"|bc|cut -c1-5)"; done | paste - - - - -
