#!/bin/bash
# run.sh <PROPERTY> <quick|thorough>   builds the checker against /repo's current tree and runs it
# run.sh setup                         only builds
# run.sh replay <file>                 replays a recorded violation
set -u
V=$(cd "$(dirname "$0")" && pwd)
export MC_VERIF_DIR=$V CARGO_NET_OFFLINE=true
unset RUSTFLAGS CARGO_TARGET_DIR CARGO_BUILD_TARGET_DIR CARGO_ENCODED_RUSTFLAGS

# cargo trusts time stamps: rebuild whenever the content of the sources changed
stamp() { (cd /repo && find . -path ./target -prune -o -path ./.git -prune -o -type f \( -name '*.rs' -o -name '*.toml' -o -name Cargo.lock \) -print0 | LC_ALL=C sort -z | xargs -0 sha256sum | sha256sum) | cut -d' ' -f1; }

build() { # <dir> <flags>
  local d=$1 t=$1/target s
  mkdir -p "$t"
  (
    flock 9
    s="$(stamp) $2"
    if [ "$(cat "$t/stamp" 2>/dev/null)" != "$s" ]; then
      rm -f "$t/stamp"
      [ -d "$t/release" ] && (cd "$d" && cargo clean --release --offline -p geokit >/dev/null 2>&1)
    fi
    (cd "$d" && RUSTFLAGS="$2" cargo build --release --offline >"$t/build.log" 2>&1) || { tail -40 "$t/build.log" >&2; exit 2; }
    echo "$s" >"$t/stamp"
  ) 9>"$t/lock"
}

build_bin() { # the command line tool, with its random source enumerated
  local t=$V/mc_hooks/target_bin s
  mkdir -p "$t"
  (
    flock 9
    s="$(stamp)"
    if [ "$(cat "$t/stamp" 2>/dev/null)" != "$s" ]; then
      rm -f "$t/stamp"
      [ -d "$t/release" ] && cargo clean --release --offline --manifest-path /repo/Cargo.toml --target-dir "$t" -p geokit >/dev/null 2>&1
    fi
    [ -f /repo/Cargo.lock ] && lock=--locked
    RUSTFLAGS="--cfg geokit_verif" cargo build --release --offline ${lock:-} --manifest-path /repo/Cargo.toml --bin sample_s2 --target-dir "$t" >"$t/build.log" 2>&1 || { tail -40 "$t/build.log" >&2; exit 2; }
    echo "$s" >"$t/stamp"
  ) 9>"$t/lock"
}

case "${1:-}" in
setup)
  build "$V/mc" "" || exit 2
  build "$V/mc_hooks" "--cfg geokit_verif" || exit 2
  build_bin || exit 2
  exit 0
  ;;
replay) P=$(sed -n 's/^property[ =:]*//p' "$2" | head -1); A=(replay "$2") ;;
*) P=$1; A=(check "$1" "${2:-quick}") ;;
esac
case "$P" in
C15 | C26)
  build "$V/mc_hooks" "--cfg geokit_verif" || { echo "build failed"; exit 2; }
  if [ "$P" = C26 ]; then build_bin || { echo "build failed"; exit 2; }; fi
  export MC_SAMPLE_BIN=$V/mc_hooks/target_bin/release/sample_s2
  exec "$V/mc_hooks/target/release/mc_hooks" "${A[@]}"
  ;;
*)
  build "$V/mc" "" || { echo "build failed"; exit 2; }
  exec "$V/mc/target/release/mc" "${A[@]}"
  ;;
esac
