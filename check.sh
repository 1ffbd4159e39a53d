#!/bin/bash
# check.sh <ID> [quick|thorough]  |  check.sh replay <ID> <file>  |  check.sh build
# Rebuilds the explorer against /repo's working tree and explores one property.
cd "$(dirname "$0")" || exit 2
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= CARGO_TARGET_DIR="$PWD/target" RUSTUP_TOOLCHAIN=stable
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS
mkdir -p target
(
  flock 9
  # cargo looks at modification times; a tree that was swapped under us may carry old ones
  stamp=$( (cd /repo && find src Cargo.toml -type f -print0 | sort -z | xargs -0 sha256sum; cat "$OLDPWD"/harness/Cargo.toml) | sha256sum)
  if [ "$stamp" != "$(cat target/stamp 2>/dev/null)" ]; then
    rm -f target/stamp
    cargo clean --release --offline --manifest-path harness/Cargo.toml -p swrs -p mc >/dev/null 2>&1
  fi
  if ! cargo build --release --offline --manifest-path harness/Cargo.toml >target/build.log 2>&1; then
    echo "the explorer does not build against /repo:" >&2
    grep -A8 -E '^error' target/build.log | head -60 >&2
    exit 3
  fi
  echo "$stamp" >target/stamp
) 9>target/lock || exit 2
MC_VERIF="$PWD"; export MC_VERIF
case "$1" in
  build) exit 0 ;;
  replay) exec ./target/release/mc replay "$2" "$3" ;;
  *) exec ./target/release/mc check "$1" --tier "${2:-${VERIF_TIER:-quick}}" ;;
esac
