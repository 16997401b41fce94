#!/bin/bash
# check.sh setup | check.sh ID quick|thorough | check.sh replay FILE
# Builds the monitor against /repo's working tree and runs one property's check.
cd "$(dirname "$0")" || exit 2
V=$PWD
export CARGO_HOME=${CARGO_HOME:-/root/.cargo} RUSTUP_HOME=${RUSTUP_HOME:-/root/.rustup}
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_INCREMENTAL=0 RUSTC_WRAPPER=
unset RUSTFLAGS CARGO_TARGET_DIR CARGO_BUILD_TARGET
mkdir -p .work evidence

# cargo goes by modification times; go by contents.
sum=$( (cd /repo && find Cargo.toml src examples -type f -print0 | sort -z | xargs -0 sha256sum; cd "$V" && find harness harness-net -type f -print0 | sort -z | xargs -0 sha256sum) | sha256sum)
fresh() { # target dir: forget what was built from other contents
  if [ -d "$1" ] && [ "$sum" != "$(cat "$1/.stamp" 2>/dev/null)" ]; then
    find "$V/$1" -maxdepth 4 -type d -path '*/.fingerprint/*' \( -name 'open-dis-rust-*' -o -name 'dis-monitor-*' -o -name 'dis-examples-*' \) -exec rm -rf {} +
    find "$V/$1" -maxdepth 5 -type d -path '*/.fingerprint/*' \( -name 'open-dis-rust-*' -o -name 'dis-monitor-*' -o -name 'dis-examples-*' \) -exec rm -rf {} +
  fi
  mkdir -p "$1" && echo "$sum" > "$1/.stamp"
}
build() { # log name, target dir, then the command
  local log=.work/build-$1.log t=$2; shift 2
  (
    flock 9
    fresh "$t"
    "$@" --offline --locked --target-dir "$V/$t" > "$log" 2>&1 || { rm -f "$t/.stamp"; exit 1; }
  ) 9> ".work/lock-$t" || { grep -A12 '^error' "$log" | head -60; echo "ERROR: the monitor does not build against /repo, see /verif/$log"; return 1; }
}
main() { build main target env RUSTUP_TOOLCHAIN=stable cargo build --manifest-path harness/Cargo.toml; }
user() { build user target-user env RUSTUP_TOOLCHAIN=stable cargo build --manifest-path harness/Cargo.toml --features user; }
plain() { build plain target-plain env RUSTUP_TOOLCHAIN=stable cargo build --manifest-path harness/Cargo.toml --profile plain; }
userplain() { build userplain target-user-plain env RUSTUP_TOOLCHAIN=stable cargo build --manifest-path harness/Cargo.toml --profile plain --features user; }
net() { build net target-net env RUSTUP_TOOLCHAIN=stable cargo build --manifest-path harness-net/Cargo.toml; }
asan() { build asan target-asan env RUSTUP_TOOLCHAIN=nightly RUSTFLAGS=-Zsanitizer=address cargo build --manifest-path harness/Cargo.toml --release --features sanitized --target x86_64-unknown-linux-gnu; }
tsan() { build tsan target-tsan env RUSTUP_TOOLCHAIN=nightly RUSTFLAGS=-Zsanitizer=thread cargo build --manifest-path harness/Cargo.toml --release --features sanitized -Zbuild-std --target x86_64-unknown-linux-gnu; }
BIN=$V/target/debug/dis-monitor
U=$V/target-user/debug/dis-monitor
export DIS_EXAMPLES=$V/target-net/debug
A=asan=$V/target-asan/x86_64-unknown-linux-gnu/release/dis-monitor
P=plain=$V/target-plain/plain/dis-monitor
UP=plain=$V/target-user-plain/plain/dis-monitor
T=tsan=$V/target-tsan/x86_64-unknown-linux-gnu/release/dis-monitor

case "$1" in
setup)
  main && plain && user && userplain && net && asan && tsan
  exit $? ;;
replay)
  f=$(realpath "$2"); main || exit 2
  case "$(grep -m1 '^variant=' "$f")" in *asan) asan || exit 2 ;; *tsan) tsan || exit 2 ;; *plain) plain || exit 2 ;; esac
  grep -q '^check=C19' "$f" && { net || exit 2; }
  grep -q '^check=C22' "$f" && { user && userplain || exit 2; BIN=$U; P=$UP; }
  exec "$BIN" replay "$f" "$V" "$A" "$T" "$P" ;;
C[0-9][0-9])
  id=$1; tier=${2:-${VERIF_TIER:-quick}}; seed=${VERIF_SEED:-1}
  case $seed in *[!0-9]*|'') seed=1 ;; esac
  rm -f "evidence/$id.json"
  more=() q=
  case $id in C05|C14|C19|C22) ;; *) plain & q=$! ;; esac
  case $id in
  C05) main & p=$!; asan; r=$?; wait $p && [ $r = 0 ] || exit 2; more=("$A") ;;
  C14) main & p=$!; tsan; r=$?; wait $p && [ $r = 0 ] || exit 2; more=("$T") ;;
  C19) main & p=$!; net; r=$?; wait $p && [ $r = 0 ] || exit 2 ;;
  C22)
    main & p=$!; userplain & q=$!; user; r=$?; wait $p || exit 2
    if [ $r != 0 ]; then
      # the library builds, the PDUs an application defines with its macro do not
      grep -qE -- '--> src/(checks/)?user.rs' .work/build-user.log || exit 2
      mkdir -p replays && cp .work/build-user.log replays/C22-build.txt
      wait $q; echo "VIOLATION property=C22 replay=$V/replays/C22-build.txt"; exit 1
    fi
    BIN=$U P=$UP ;;
  *) main || exit 2 ;;
  esac
  if [ -n "$q" ]; then wait $q || exit 2; more+=("$P"); fi
  exec "$BIN" run "$id" "$tier" "$seed" "$V" "${more[@]}" ;;
*) echo "usage: check.sh setup | ID quick|thorough | replay FILE"; exit 2 ;;
esac
