#!/bin/bash
# seed_check.sh [id...]: run the check of each planted change's property against it (applied to /repo, undone afterwards).
# Without ids, writes SEEDED.md.
cd "$(dirname "$0")/.." || exit 2
rows=$(mktemp)
for d in $([ $# -gt 0 ] && printf 'seeded/%s ' "$@" || ls -d seeded/*); do
  d=${d%/}; id=$(basename "$d"); p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  git -C /repo apply "$PWD/$d/patch.diff" || { echo "$id: patch does not apply"; continue; }
  out=$(bash check.sh "$p" 2>&1); rc=$?
  git -C /repo checkout -q -- .
  if [ $rc = 1 ] && grep -q "^VIOLATION property=$p " <<<"$out"; then r="caught: $(grep -A1 "^VIOLATION" <<<"$out" | tail -1 | cut -c1-160)"; else r="MISSED rc=$rc"; fi
  echo "$id $p $r"
  m=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['what_it_breaks'].replace('|','/'))")
  f=$(sed 's/^caught: *//; s/[ ]*case .*//; s/|/\//g' <<<"$r")
  echo "| $id | $p | $m | $([[ $r == caught* ]] && echo "caught by \`$f\`" || echo "**missed**") |" >>"$rows"
done
if [ $# = 0 ]; then { echo "# Planted changes and the checks that catch them"; echo; echo "Last run of tools/seed_check.sh (quick tier of the property's own check)."; echo; echo "| change | property | what it breaks | result |"; echo "|---|---|---|---|"; cat "$rows"; } >SEEDED.md; fi
rm -f "$rows"
