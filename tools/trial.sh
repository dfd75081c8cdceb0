#!/bin/bash
# trial.sh PATCH PROPERTY...: applies a patch to a scratch copy of /repo and runs checks against that copy.
# TRIAL_DIR (default /tmp/trial) is the scratch directory; PATCH may be "-R:COMMIT" to revert a commit.
V="$(cd "$(dirname "${BASH_SOURCE[0]}")/.." && pwd)"
D="${TRIAL_DIR:-/tmp/trial}"
patch="$1"; shift
mkdir -p "$D"
if [ ! -d "$D/repo" ]; then git clone -q /repo "$D/repo"; fi
git -C "$D/repo" checkout -q -- . ; git -C "$D/repo" fetch -q; git -C "$D/repo" reset -q --hard "$(git -C /repo rev-parse HEAD)"
case "$patch" in
  -R:*) git -C /repo show "${patch#-R:}" | git -C "$D/repo" apply -R -3 >/dev/null 2>&1 || { echo "does not apply: $patch"; exit 3; } ;;
  none) ;;
  *) git -C "$D/repo" apply "$patch" || { echo "does not apply: $patch"; exit 3; } ;;
esac
mkdir -p "$D/sim"
cp "$V"/sim/{Cargo.lock,rustc-wrapper.sh} "$D/sim/"
rsync -a --delete "$V/sim/src/" "$D/sim/src/" 2>/dev/null || { rm -rf "$D/sim/src"; cp -a "$V/sim/src" "$D/sim/src"; }
sed "s#path = \"/repo\"#path = \"$D/repo\"#" "$V/sim/Cargo.toml" > "$D/sim/Cargo.toml"
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true
if [ -n "$TRIAL_TESTS" ]; then
  (cd "$D/repo" && CARGO_TARGET_DIR="$D/rt" cargo test --offline 2>&1 | grep -m1 "test result" )
fi
export CARGO_TARGET_DIR="$D/sim/target" RUSTC_WRAPPER="$D/sim/rustc-wrapper.sh"
(cd "$D/sim" && cargo build --offline -q 2>"$D/build.log") || { echo "build failed"; tail -20 "$D/build.log"; exit 4; }
for p in "$@"; do
  s=$(date +%s.%N)
  "$CARGO_TARGET_DIR/debug/asim" check "$p" quick "${VERIF_SEED:-1}" "$D" >"$D/$p.out" 2>"$D/$p.err"; rc=$?
  printf '%s rc=%s %.1fs %s\n' "$p" $rc "$(echo "$(date +%s.%N) - $s" | bc)" "$(grep -m1 '^run ' "$D/$p.out" | cut -c1-150)"
done
