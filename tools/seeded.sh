#!/bin/bash
# seeded.sh [id...]   runs the check of each seeded change's property against a scratch copy with the change.
# With CHECKS="C01 C02" those checks run instead; VERIF_SEED is passed on.
V="$(cd "$(dirname "$0")/.." && pwd)"
cd "$V/seeded" || exit 2
[ $# -gt 0 ] || set -- *
for id; do
  W="$(mktemp -d /tmp/seeded.XXXXXXXX)"
  cp -a /repo "$W/repo"
  if ! git -C "$W/repo" apply "$V/seeded/$id/patch.diff"; then echo "$id does not apply"; continue; fi
  P="$(sed -n 's/.*"property": *"\(.*\)".*/\1/p' "$id/meta.json")"
  mkdir "$W/v"; cp "$V/known_findings.txt" "$W/v"
  for c in ${CHECKS:-$P}; do
    S=$(date +%s)
    TOPOLITH_REPO="$W/repo" VERIF_OUT="$W/v" VERIF_TIER="${VERIF_TIER:-quick}" VERIF_SEED="${VERIF_SEED:-1}" "$V/check.sh" "$c" >"$W/out" 2>&1
    rc=$?
    if [ $rc = 1 ] && grep -q "^VIOLATION property=$c " "$W/out"; then r=caught; else r="MISSED rc=$rc"; fi
    echo "$id $c $r $(($(date +%s)-S))s $(grep -v '^VIOLATION' "$W/out" | tr '\n' ' ' | head -c 160)"
  done
  case "$W" in /tmp/seeded.*) rm -rf "$W" ;; esac
done
