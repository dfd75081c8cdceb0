#!/bin/bash
# determinism.sh [RUNS]: executes the same plans in three processes (two of them at
# once, one with another environment size and without address randomisation) and
# compares the event logs of every run. Prints the number of runs that agree.
V="$(cd "$(dirname "${BASH_SOURCE[0]}")/.." && pwd)"
n=${1:-60}
A="$V/sim/target/debug/asim"
d=$(mktemp -d)
trap 'rm -rf "$d"' EXIT
bad=0
for p in C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C18; do
  "$A" selftest $p 1000 "$n" > "$d/a" 2>/dev/null &
  PAD=$(head -c 20000 /dev/zero | tr '\0' x) "$A" selftest $p 1000 "$n" > "$d/b" 2>/dev/null &
  wait
  setarch -R "$A" selftest $p 1000 "$n" > "$d/c" 2>/dev/null
  same=$(paste -d'|' "$d/a" "$d/b" "$d/c" | awk -F'|' '$1==$2&&$2==$3' | wc -l)
  echo "$p $same of $n identical"
  [ "$same" = "$n" ] || bad=1
done
exit $bad
