#!/bin/bash
# builds every harness crate once (shared target folder), so that a check only rebuilds what changed in /repo
set -e
cd "$(dirname "${BASH_SOURCE[0]}")"
. h/env.sh
for c in h/*/Cargo.toml; do
  d=$(dirname "$c"); n=$(basename "$d")
  if [ "$n" = pbt ]; then continue; fi
  [ -e "$d/src/main.rs" ] || continue
  bash h/build1.sh "$n"
done
