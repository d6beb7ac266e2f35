#!/bin/bash
# build1.sh CRATE: build one harness from /repo's current working tree.
# Cargo decides by modification times; a content stamp of /repo's sources makes sure that a tree whose files
# carry old times is rebuilt all the same.
set -e
. "$(dirname "${BASH_SOURCE[0]}")/env.sh"
n=$1
d=$VERIF_ROOT/h/$n
mkdir -p "$CARGO_TARGET_DIR/stamps"
python3 "$VERIF_ROOT/h/mkws.py"
# everything a build of this harness reads: /repo's sources (and whatever lies beside them), the stand-ins, the harness
files() { find "$@" -type f -not -path '*/target/*' -not -path '*/.git/*' -not -name '*.md' 2>/dev/null | LC_ALL=C sort | tr '\n' '\0' | xargs -0 sha256sum; }
sums=$( { cd /repo && cat Cargo.toml rust-toolchain.toml 2>/dev/null; files pallets macros polimec-common* runtimes; cd "$VERIF_ROOT" && files standin h/pbt; } | sha256sum | cut -c1-40)
own=$(cd "$VERIF_ROOT" && { files "h/$n"; sha256sum h/env.sh h/mkws.py; } | sha256sum | cut -c1-40)
stamp=$sums-$own
s=$CARGO_TARGET_DIR/stamps/$n
cd "$d"
last=$(cat "$s" 2>/dev/null || true)
# the same content was built before: nothing to do, whatever times the files carry
if [ "$last" = "$stamp" ] && [ -x "$CARGO_TARGET_DIR/debug/$n" ]; then exit 0; fi
if [ "${last%-*}" != "$sums" ]; then
  # packages that come from /repo
  pk=$(cargo metadata --offline --format-version 1 2>/dev/null | python3 -c '
import json,sys
m=json.load(sys.stdin)
print(" ".join(p["name"] for p in m["packages"] if p["manifest_path"].startswith(("/repo/","'"$VERIF_ROOT"'/target/ws/"))))' || true)
  for p in $pk; do cargo clean --offline -p "$p" >/dev/null 2>&1 || true; done
  # stand-in crates include sources of /repo by path
  if [ -e "$d/src/main.rs" ]; then touch "$d/src/main.rs"; fi
fi
rm -f "$s"
cargo build --offline 2>"$CARGO_TARGET_DIR/stamps/$n.log" || { cat "$CARGO_TARGET_DIR/stamps/$n.log" >&2; rm -f "$s"; exit 2; }
echo "$stamp" > "$s"
