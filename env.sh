# Sourced by run.sh and setup.sh.
export PATH=/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export HOME=/root
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= RUST_BACKTRACE=0
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_TARGET_DIR=${MC_TARGET:-$PWD/target}
unset RUSTFLAGS RUSTDOCFLAGS CARGO_INCREMENTAL
# Cargo decides by mtime whether the path dependency changed; decide by content instead.
freshen() {
  local sum
  sum=$( (cd /repo && find Cargo.toml src README.md -type f -print0 | sort -z | xargs -0 sha256sum) | sha256sum)
  if [ -e "$CARGO_TARGET_DIR/.repo-sum" ] && [ "$sum" != "$(cat "$CARGO_TARGET_DIR/.repo-sum")" ]; then
    cargo clean --manifest-path mc/Cargo.toml --release --offline --locked -p image >/dev/null 2>&1
  fi
  echo "$sum" > "$CARGO_TARGET_DIR/.repo-sum"
}
