# Build helpers, sourced by check.sh and setup.sh. Expects $here.
build=$here/build
export PATH="/root/.cargo/bin:/usr/local/cargo/bin:$PATH"
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0 CARGO_TERM_COLOR=never RUSTC_WRAPPER=
unset CARGO_TARGET_DIR RUSTFLAGS
mkdir -p "$build" "$here/evidence" "$build/scratch"

# Content hash of the sources of the code under test: cargo itself looks at modification
# times, which copying a tree can leave older than an earlier build of another version.
src_hash() {
  (cd /repo && find . -path ./target -prune -o -path ./.git -prune -o -type f \
     \( -name '*.rs' -o -name '*.toml' -o -name 'Cargo.lock' -o -name '*.h' \) -print0 |
     LC_ALL=C sort -z | xargs -0 sha256sum | sha256sum | cut -d' ' -f1)
}

# stale DIR CRATE...: forget earlier builds of the crates when the sources differ.
stale() {
  local dir=$1 h; shift
  h=$(src_hash)
  if [ "$(cat "$dir/.src_hash" 2>/dev/null)" != "$h" ]; then
    for c in "$@"; do
      find "$dir" -maxdepth 4 -type d -path '*/.fingerprint/*' -name "$c-*" -exec rm -rf {} + 2>/dev/null
    done
    mkdir -p "$dir"
    echo "$h" > "$dir/.src_hash"
  fi
}

build_rs() {
  local profile=${1:-release}
  (
    flock 9
    stale "$build/rs" graphrox
    cargo build --offline --profile "$profile" --manifest-path "$here/harness/Cargo.toml" \
      --target-dir "$build/rs" >"$build/rs.log" 2>&1 || { tail -40 "$build/rs.log"; exit 1; }
  ) 9>"$build/rs.lock"
}

# The crate and the large cases, unoptimised.
build_deep() {
  (
    flock 9
    stale "$build/deep" graphrox
    cargo build --offline --manifest-path "$here/deep/Cargo.toml" --target-dir "$build/deep" \
      >"$build/deep.log" 2>&1 || { tail -40 "$build/deep.log"; exit 1; }
  ) 9>"$build/deep.lock"
}

# The shared library as C and Python programs load it, the memory oracle, and a C program's
# view of the published header. 3: the library builds, but lacks functions the header declares.
build_c() {
  (
    flock 9
    local dir=$build/c
    mkdir -p "$dir"
    stale "$dir" graphrox graphrox-c
    cd /repo || exit 1
    CARGO_TARGET_DIR=$dir CARGO_PROFILE_DEV_OPT_LEVEL=1 cargo build --offline -p graphrox-c \
      >"$build/c.log" 2>&1 || { tail -40 "$build/c.log"; exit 1; }
    cd "$dir" || exit 1
    gcc -O2 -g -w -fPIC -shared -o libgxmem.so "$here/native/gxmem.c" >>"$build/c.log" 2>&1 &&
      gcc -O1 -g -w -fPIC -shared -o libpyfwd.so "$here/native/pyfwd.c" -ldl \
        >>"$build/c.log" 2>&1 &&
      gcc -O1 -g -w -fPIC -I/repo/graphrox-c -c -o gxshim.o "$here/native/gxshim.c" \
        >>"$build/c.log" 2>&1 || { tail -20 "$build/c.log"; exit 1; }
    gcc -shared -o libgxshim.so gxshim.o -L. -lgxmem -Ldebug -lgraphrox -Wl,--no-undefined \
      '-Wl,-rpath,$ORIGIN:$ORIGIN/debug' >"$build/link.log" 2>&1 || {
        tail -20 "$build/link.log"
        grep -q 'undefined reference to .*gphrx' "$build/link.log" && exit 3
        exit 1
      }
  ) 9>"$build/c.lock"
}
