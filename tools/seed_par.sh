#!/bin/bash
# seed_par.sh [id...]: as seed_check.sh, in WORKERS parallel scratch copies of /repo and of the harness (under /tmp/sc, removed afterwards).
# Writes SEEDED.md when no ids are given.
cd "$(dirname "$0")/.." || exit 2
V=$PWD; N=${WORKERS:-4}; W=/tmp/sc
rm -rf /tmp/sc; mkdir -p "$W/out"
. ./env.sh; (cd mc && cargo build --release --offline >/dev/null 2>&1) || exit 2
ids=("$@"); [ $# -gt 0 ] || ids=($(ls seeded))
printf '%s\n' "${ids[@]}" >"$W/todo"
worker() {
  local w="$W/$1"; mkdir -p "$w/root/evidence"
  git clone -q /repo "$w/repo"; cp /repo/Cargo.lock "$w/repo/" 2>/dev/null
  cp -r "$V/mc" "$w/mc"; cp "$V"/known_findings.txt "$w/root/"; [ -d "$V/data" ] && cp -r "$V/data" "$w/root/"
  cp -a "$V/target" "$w/target"
  sed -i "s|path = \"/repo\"|path = \"$w/repo\"|" "$w/mc/Cargo.toml"
  while :; do
    id=$(flock "$W/lock" bash -c "head -1 $W/todo; sed -i 1d $W/todo"); [ -n "$id" ] || break
    d="$V/seeded/$id"; p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
    if ! git -C "$w/repo" apply "$d/patch.diff"; then echo "$id $p patch does not apply" | tee "$W/out/$id"; continue; fi
    rm -rf "$w"/target/release/.fingerprint/financelib-*
    if (cd "$w/mc" && CARGO_TARGET_DIR="$w/target" cargo build --release --offline >"$w/log" 2>&1); then
      out=$(VERIF_TIER=quick VERIF_ROOT="$w/root" timeout 900 "$w/target/release/mc" "$p" 2>&1); rc=$?
    else out=""; rc=build; fi
    git -C "$w/repo" checkout -q -- .
    if [ "$rc" = 1 ] && grep -q "^VIOLATION property=$p " <<<"$out"; then r="caught: $(grep -A1 "^VIOLATION" <<<"$out" | tail -1 | cut -c1-160)"; else r="MISSED rc=$rc"; fi
    echo "$id $p $r" | tee "$W/out/$id"
  done
}
for i in $(seq "$N"); do worker "$i" & done; wait
if [ $# = 0 ]; then
  python3 - <<'P'
import json, os
print("seeded:", len(os.listdir("seeded")))
with open("SEEDED.md", "w") as o:
    o.write("# Planted changes and the checks that catch them\n\nLast run of tools/seed_par.sh (quick tier of the property's own check).\n\n| change | property | what it breaks | result |\n|---|---|---|---|\n")
    for i in sorted(os.listdir("seeded")):
        l = open("/tmp/sc/out/" + i).read().strip().split(" ", 2)
        m = json.load(open(f"seeded/{i}/meta.json"))["what_it_breaks"].replace("|", "/")
        r = l[2]
        f = r[8:].split(" case ")[0].strip().replace("|", "/")
        o.write(f"| {i} | {l[1]} | {m} | " + (f"caught by `{f}`" if r.startswith("caught") else "**missed**") + " |\n")
P
fi
rm -rf /tmp/sc
