#!/bin/bash
# seeded.sh [ID...]: runs each planted bug's check against a scratch copy (see trial.sh).
V="$(cd "$(dirname "${BASH_SOURCE[0]}")/.." && pwd)"
export TRIAL_DIR="${TRIAL_DIR:-/tmp/trial-seeded}"
[ $# -gt 0 ] || set -- $(ls "$V/seeded")
for id in "$@"; do
  d="$V/seeded/$id"
  p=$(sed -n 's/.*"property": *"\([^"]*\)".*/\1/p' "$d/meta.json")
  echo "$id $("$V/tools/trial.sh" "$d/patch.diff" $p)"
done
