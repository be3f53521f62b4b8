#!/bin/bash
# Builds everything a check needs, from /repo's *current working tree*:
#   .build/ossl_stub.o   fake OpenSSL (so that sinks owning a TLS client can be built)
#   .build/detsim.so     the simulator (LD_PRELOAD)
#   .build/cernan        the unmodified cernan binary, linked as above
# Nothing is written in /repo or /opt/vp.  Safe to run concurrently.
set -u
V=$(cd "$(dirname "$0")/.." && pwd)
B=$V/.build
mkdir -p "$B"
exec 9>"$B/.lock"
flock 9
LOG=$B/build.log
: > "$LOG"

# --- simulator -------------------------------------------------------------
simhash=$(cat "$V"/sim/*.cc "$V"/sim/*.h "$V/build/build.sh" 2>/dev/null | sha256sum | cut -c1-16)
if [ "$(cat "$B/sim.hash" 2>/dev/null)" != "$simhash" ] || [ ! -f "$B/detsim.so" ]; then
  g++ -std=c++17 -O2 -g -fPIC -shared -fno-exceptions -fno-rtti -fno-threadsafe-statics \
      -static-libstdc++ -static-libgcc -Wall -Wno-unused-function -o "$B/detsim.so.tmp" "$V"/sim/*.cc -ldl >>"$LOG" 2>&1 \
    || { echo "simulator build failed"; tail -40 "$LOG"; exit 2; }
  mv "$B/detsim.so.tmp" "$B/detsim.so"; echo "$simhash" > "$B/sim.hash"
fi

# --- OpenSSL stub ----------------------------------------------------------
if [ ! -f "$B/ossl_stub.o" ]; then
  { echo "/* generated: every OpenSSL symbol the vendored crates name, as a function returning 1 */"
    sed -n 's/^-Wl,--defsym=\([A-Za-z0-9_]*\)=0$/long \1(void){return 1;}/p' /opt/vp/openssl-absent.args
  } > "$B/ossl_stub.c"
  gcc -w -O1 -fno-builtin -c -o "$B/ossl_stub.o" "$B/ossl_stub.c" >>"$LOG" 2>&1 || { tail "$LOG"; exit 2; }
fi

# --- cernan ----------------------------------------------------------------
srchash=$(cd /repo && { find src -type f -print0 | sort -z | xargs -0 sha256sum; sha256sum Cargo.toml Cargo.lock; cat "$V/build/ld-wrap.sh"; } | sha256sum | cut -c1-16)
if [ "$(cat "$B/cernan.hash" 2>/dev/null)" != "$srchash" ] || [ ! -x "$B/cernan" ]; then
  . /opt/vp/env.sh
  T=$B/target
  if [ ! -d "$T/debug/deps" ]; then
    mkdir -p "$T/debug"
    if [ -d /repo/target/debug/deps ]; then
      cp -a /repo/target/.rustc_info.json "$T/" 2>/dev/null
      rsync -a --exclude='*cernan*' --exclude='programmable_filter*' /repo/target/debug/build /repo/target/debug/deps /repo/target/debug/.fingerprint "$T/debug/" >>"$LOG" 2>&1
    fi
  fi
  # never trust mtimes for the crate under test
  rm -rf "$T"/debug/.fingerprint/cernan-*
  # a cargo home of our own: cargo opens its lock file there for writing
  mkdir -p "$B/cargo-home" && cp /opt/vp/cargo-home/config "$B/cargo-home/config"
  export CARGO_HOME=$B/cargo-home
  export CARGO_TARGET_DIR=$T VERIF_OSSL_STUB=$B/ossl_stub.o
  export CARGO_TARGET_X86_64_UNKNOWN_LINUX_GNU_LINKER=$V/build/ld-wrap.sh
  (cd /repo && cargo build --offline --locked --bin cernan) >>"$LOG" 2>&1 || { echo "cernan build failed"; tail -60 "$LOG"; exit 2; }
  cp "$T/debug/cernan" "$B/cernan.tmp" && mv "$B/cernan.tmp" "$B/cernan"
  echo "$srchash" > "$B/cernan.hash"
fi
exit 0
