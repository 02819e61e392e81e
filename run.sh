#!/bin/bash
# run.sh setup | run.sh <PROPERTY> [quick|thorough] | run.sh replay <file> | run.sh list
# Builds burn_fm from /repo's working tree with the verification entry point on
# (--cfg burn_verif, harness from this directory) and runs one check.
set -u
D="$(cd "$(dirname "$0")" && pwd)"
R="${BURN_REPO:-/repo}"
if [ -f /opt/vp/env.sh ]; then . /opt/vp/env.sh; fi
export CARGO_NET_OFFLINE=true BURN_VERIF_DIR="$D"
export CARGO_INCREMENTAL=0
mkdir -p "$D/target" "$D/out" "$D/evidence"
EXE="$D/target/debug/burn_fm"

compile() {
  cargo rustc --manifest-path "$R/Cargo.toml" --bin burn_fm --offline --locked --quiet \
    --target-dir "$D/target" -- --cfg burn_verif "$@" -C opt-level=2 -C debug-assertions=on -C overflow-checks=on \
    -A warnings >"$D/out/build.log" 2>&1
}
build() {
  # any change of source or harness content forces a rebuild, whatever its time stamp
  BURN_VERIF_STAMP="$(cd / && cat $(find "$R/src" "$R/Cargo.toml" "$R/Cargo.lock" "$D/harness" -type f | LC_ALL=C sort) | sha256sum | cut -c1-32)"
  export BURN_VERIF_STAMP
  compile && return 0
  # a changed tree may lack a function that only other properties call: leave those out
  case "${1:-}" in
    C20|C21|C22) ;;
    C19|C25|C26|C28) compile --cfg burn_no_codec && return 0 ;;
    C*) compile --cfg burn_no_codec --cfg burn_no_tool && return 0 ;;
  esac
  cat "$D/out/build.log" >&2
  echo "run.sh: the build failed" >&2
  return 1
}
locked() { exec 9>"$D/out/lock"; flock 9; }

case "${1:-}" in
  setup) locked; build || exit 2; echo built ;;
  list) (locked; build) || exit 2; BURN_VERIF=list "$EXE" ;;
  replay)
    read -r P T C < <(python3 -c 'import json,sys; j=json.load(open(sys.argv[1])); print(j["property"], j["tier"], j["case"])' "$2") || exit 2
    (locked; build "$P") || exit 2
    W="$(mktemp -d "$D/out/replay.XXXXXX")"
    ( cd "$W" && BURN_VERIF=only BURN_VERIF_PROP="$P" BURN_VERIF_TIER="$T" BURN_VERIF_CASE="$C" BURN_VERIF_OUT="$W/result" "$EXE" )
    rc=$?
    cat "$W/result" 2>/dev/null || echo "the case ended the process abnormally (status $rc)"
    rm -rf "$W"
    exit $rc ;;
  C[0-9]*)
    P="$1"; T="${2:-${VERIF_TIER:-quick}}"
    ( locked; build "$P" ) || exit 2
    cd "$D/out"
    exec env BURN_VERIF=run BURN_VERIF_PROP="$P" BURN_VERIF_TIER="$T" "$EXE" ;;
  *) echo "usage: run.sh setup | <PROPERTY> [quick|thorough] | replay <file> | list" >&2; exit 2 ;;
esac
