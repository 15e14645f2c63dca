#!/bin/bash
# usage: run_check.sh <cNN> [replay <file>]
# Builds the check from /verif and /repo's working tree and runs it.
here="$(cd "$(dirname "$0")" && pwd)"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export PATH=/root/.cargo/bin:$PATH CARGO_NET_OFFLINE=true RUSTC_WRAPPER= CARGO_TERM_COLOR=never
export RUST_BACKTRACE=0 VERIF_DIR="$here"
unset CARGO_INCREMENTAL CARGO_PROFILE_DEV_DEBUG RUSTFLAGS
export CARGO_INCREMENTAL=0 RUSTFLAGS="-Awarnings"
bin="$1"; shift
mode=run
[ "$bin" = setup ] && { mode=setup; bin=c01; }
tdir="$here/target"
asan=" c12 c13 c26 "   # built with AddressSanitizer
tsan=" c21 c24 "   # built with ThreadSanitizer
args=(build --offline --quiet --manifest-path "$here/harness/Cargo.toml" --bin "$bin")
[ "$bin" = c10 ] && args+=(--features codecs)
mkdir -p "$here/scratch"
log="$here/scratch/build-$bin.$$.log"
try_build() { CARGO_TARGET_DIR="$tdir" cargo "${args[@]}" "$@" >"$log" 2>&1; }
build() {
  if ! try_build "$@"; then
    echo "error: building $bin failed"; tail -n 60 "$log"; rm -f "$log"; exit 3
  fi
  rm -f "$log"
}
plain() { out="$tdir/debug/$bin"; build; }
triple=x86_64-unknown-linux-gnu
if [[ "$asan" == *" $bin "* && -z "$VCHECK_NOASAN" ]]; then
  export RUSTUP_TOOLCHAIN=nightly RUSTFLAGS="-Awarnings -Zsanitizer=address" VCHECK_SANITIZED=1
  export ASAN_OPTIONS="detect_leaks=0:exitcode=77:abort_on_error=0:hard_rss_limit_mb=12000:handle_abort=1:allocator_may_return_null=1:detect_stack_use_after_return=0:symbolize=0:${ASAN_EXTRA}"
  tdir="$here/target/asan"
  out="$tdir/$triple/debug/$bin"
  build --target $triple
elif [[ "$tsan" == *" $bin "* && -z "$VCHECK_NOASAN" ]]; then
  # (the standard library has to be instrumented, too)
  old="$tdir"
  export TSAN_OPTIONS="exitcode=77:halt_on_error=1:symbolize=0:hard_rss_limit_mb=14000"
  tdir="$here/target/tsan"
  out="$tdir/$triple/debug/$bin"
  RUSTUP_TOOLCHAIN=nightly RUSTFLAGS="-Awarnings -Zsanitizer=thread" try_build --target $triple -Zbuild-std
  if [ $? = 0 ] && "$out" ping >/dev/null 2>&1; then
    rm -f "$log"
    export VCHECK_SANITIZED=1
  else
    echo "note: ThreadSanitizer does not run here, checking without it"
    tdir="$old"; plain
  fi
else
  plain
fi
[ $mode = setup ] && exit 0
exec "$out" "$@"
