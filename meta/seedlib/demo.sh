#!/bin/bash
# Runs the test beside this file inside a scratch copy of the sources (cwd: the repository, already built).
# exit 0: behaves as it should; nonzero: it does not.
set -u
HERE=$(cd "$(dirname "$0")" && pwd)
REPO=$PWD
PKG=@PKG@
export HOME=/root PATH=/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export RUSTUP_TOOLCHAIN=1.81.0-x86_64-unknown-linux-gnu RUSTC_WRAPPER= CARGO_INCREMENTAL=1 CARGO_NET_OFFLINE=true
export CARGO_PROFILE_DEV_DEBUG=line-tables-only SKIP_WASM_BUILD=1 RUST_LOG=off
export CARGO_TARGET_DIR=$REPO/target
T=$(mktemp -d) || exit 9
trap 'rm -rf -- "$T"' EXIT
cp -a "$REPO/pallets" "$REPO/macros" "$REPO/polimec-common" "$REPO/runtimes" "$REPO/nodes" "$REPO/README.md" "$REPO/LICENSE" "$REPO/Cargo.lock" "$REPO/Cargo.toml" "$T/" || exit 9
cd "$T" || exit 9
python3 - <<'P' || exit 9
import re
t = open("Cargo.toml").read()
m = '["pallets/democracy", "pallets/elections-phragmen", "pallets/on-slash-vesting", "macros", "macros/tests"]'
t = re.sub(r"^members\s*=\s*\[[^\]]*\]", "members = " + m, t, count=1, flags=re.M)
t = re.sub(r"^default-members\s*=\s*\[[^\]]*\]", "", t, count=1, flags=re.M)
open("Cargo.toml", "w").write(t)
P
case $PKG in
pallet-democracy)
  cp "$HERE/demo.rs" pallets/democracy/src/tests/vp_demo.rs && printf '\nmod vp_demo;\n' >> pallets/democracy/src/tests.rs ;;
pallet-elections-phragmen)
  { echo 'mod vp_demo { use super::*;'; cat "$HERE/demo.rs"; echo '}'; } > pallets/elections-phragmen/src/vp_demo.rs
  sed -i '0,/^mod tests {/s//mod tests {\n\tinclude!("vp_demo.rs");/' pallets/elections-phragmen/src/lib.rs ;;
on-slash-vesting)
  { echo 'mod vp_demo { use super::*;'; cat "$HERE/demo.rs"; echo '}'; } >> pallets/on-slash-vesting/src/test.rs ;;
macros-tests)
  { echo '#[cfg(test)] mod vp_demo {'; cat "$HERE/demo.rs"; echo '}'; } >> macros/tests/src/lib.rs ;;
esac
cargo test --offline -p $PKG --lib vp_demo > "$T/out" 2>&1
rc=$?
tail -30 "$T/out"
if [ $rc = 0 ]; then grep -q 'test result: ok. [1-9]' "$T/out" || rc=9; fi
exit $rc
