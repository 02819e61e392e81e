#!/bin/bash
# Regenerates harness/variants: 'recorded' is src/testing as it is in the pinned commit, 'repaired'
# is the same with the patches of repairs/ applied (see DESIGN.md, "Defects in src/testing").
set -eu
D="$(cd "$(dirname "$0")/.." && pwd)"
W="$(mktemp -d)"
mkdir -p "$W/recorded" "$W/repaired" "$D/harness/variants/recorded" "$D/harness/variants/repaired"
for v in recorded repaired; do
  mkdir -p "$W/$v"
  git -C /repo archive "$(git -C /repo rev-list --max-parents=0 HEAD)" src/testing | tar -x -C "$W/$v"
done
for p in "$D"/repairs/*.patch; do (cd "$W/repaired" && patch -s -p1 -F0 < "$p"); done
for v in recorded repaired; do
  for f in calc_eval calc_tokens database layout_mgr relation_mgr test; do
    # unit tests are not part of the variants
    sed -e '/^#\[cfg(test)\]/,$d' -e 's/crate::testing::/super::/g' "$W/$v/src/testing/$f.rs" > "$D/harness/variants/$v/$f.rs"
  done
done
rm -rf "$W"
