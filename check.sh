#!/bin/bash
# check.sh build | <property> | replay <file> [more options of sim]
# Builds the simulated texmo from /repo's working tree and runs one check.
set -u
here="$(cd "$(dirname "$0")" && pwd)"
repo="${DST_REPO:-/repo}"
B="$here/.build"
if [ "${1:-}" = replay ] && [ -f "${2:-}" ]; then set -- replay "$(realpath "$2")"; fi
mkdir -p "$B/texmo/src" "$here/evidence" "$here/replays"
log="$B/build.log"

fail() { echo "check.sh: $1" >&2; tail -n 40 "$log" >&2 2>/dev/null; exit 2; }

cd "$here"
export CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu RUSTC_WRAPPER= CARGO_TERM_COLOR=never
unset CARGO_TARGET_DIR RUSTFLAGS CARGO_ENCODED_RUSTFLAGS RUST_BACKTRACE CARGO_BUILD_TARGET

exec 9>"$B/lock"
flock 9

# The simulator library
flags=2
if ! cmp -s "$here/shim/dst.c" "$B/dst.c.built" || [ "$(cat "$B/lib/flags" 2>/dev/null)" != $flags ] || [ ! -f "$B/lib/libdst.so" ]; then
  mkdir -p "$B/lib"
  gcc -O2 -fno-builtin -fno-delete-null-pointer-checks -fPIC -shared -Wall -Wno-nonnull -Wno-nonnull-compare -Wno-unused-function \
    -U_FORTIFY_SOURCE -D_FORTIFY_SOURCE=0 -o "$B/lib/libdst.so.tmp" "$here/shim/dst.c" -ldl -lpthread >"$log" 2>&1 \
    || fail "the simulator library does not build"
  mv "$B/lib/libdst.so.tmp" "$B/lib/libdst.so"
  cp "$here/shim/dst.c" "$B/dst.c.built"; echo $flags >"$B/lib/flags"
fi

# texmo from the working tree, synchronized by content
python3 - "$repo" "$B/texmo" "$here/texmo.Cargo.lock" <<'PY' || fail "cannot copy the sources"
import os, sys
repo, dst, lock = sys.argv[1:]
want = {}
def add(rel, src):
    want[rel] = open(src, 'rb').read()
add('Cargo.toml', os.path.join(repo, 'Cargo.toml'))
own = os.path.join(repo, 'Cargo.lock')
add('Cargo.lock', own if os.path.exists(own) else lock)
for extra in ('build.rs', 'rust-toolchain', 'rust-toolchain.toml'):
    if os.path.exists(os.path.join(repo, extra)):
        add(extra, os.path.join(repo, extra))
for d, ds, fs in os.walk(os.path.join(repo, 'src')):
    for f in fs:
        p = os.path.join(d, f)
        add(os.path.relpath(p, repo), p)
for rel, data in want.items():
    p = os.path.join(dst, rel)
    try:
        if open(p, 'rb').read() == data:
            continue
    except OSError:
        pass
    os.makedirs(os.path.dirname(p), exist_ok=True)
    with open(p, 'wb') as f:
        f.write(data)
for d, ds, fs in os.walk(os.path.join(dst, 'src')):
    for f in fs:
        rel = os.path.relpath(os.path.join(d, f), dst)
        if rel not in want:
            os.remove(os.path.join(dst, rel))
PY
( cd "$B/texmo" && CARGO_TARGET_DIR="$B/target-texmo" RUSTFLAGS="--cfg texmo_sim" LD_LIBRARY_PATH= \
  cargo rustc --release --offline --target x86_64-unknown-linux-gnu --bin texmo -- \
  -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 -Cllvm-args=-sanitizer-coverage-trace-pc-guard \
  -Clink-arg=-L"$B/lib" -Clink-arg=-Wl,--no-as-needed -Clink-arg=-ldst ) >"$log" 2>&1 || fail "texmo does not build for the simulator"
( cd "$here/sim" && CARGO_TARGET_DIR="$B/target-sim" cargo build --release --offline --locked ) >>"$log" 2>&1 || fail "the checker does not build"

# Run on a private copy, so that a rebuild does not disturb a running check
run="$(mktemp -d /dev/shm/dstbin.XXXXXX 2>/dev/null || mktemp -d)"
trap 'rm -rf "$run"' EXIT
cp "$B/target-texmo/x86_64-unknown-linux-gnu/release/texmo" "$B/lib/libdst.so" "$B/target-sim/release/dst" "$run/" || fail "cannot copy the binaries"
flock -u 9
exec 9>&-

case "${1:-}" in
  build|"") echo "built"; exit 0 ;;
  replay|show) "$run/dst" "$@" --bin "$run/texmo" --lib "$run/libdst.so" --root "$here" ;;
  *) DST_TOKENS="$repo/tokens" "$run/dst" check "$@" --bin "$run/texmo" --lib "$run/libdst.so" --root "$here" ;;
esac
